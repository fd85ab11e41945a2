//! Supervisor and workers.
//!
//! A check is a list of configurations (type parameters of the tree), each with a finite list of
//! base states (texts) and a function that tries everything on one base state. The supervisor
//! re-executes its own binary: once to enumerate the base states, then as several single-threaded
//! workers that share them out. A worker that crashes, aborts or stops making progress is a
//! violation at the case it had announced; anything else unexpected is an error of the check.

use crate::{shm, tree, values};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
    fn name(self) -> &'static str {
        self.pick("quick", "thorough")
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub key: String,
    pub config: String,
    pub hist: String,
    pub tag: String,
    pub vals: Vec<i64>,
    pub msg: String,
}

pub struct Ctx {
    pub tier: Tier,
    pub config: String,
    pub hist: String,
    stats: BTreeMap<String, u64>,
    outcomes: HashSet<u64>,
    viols: Vec<Viol>,
    samples: Vec<String>,
    /// replaying one recorded case
    pub replaying: bool,
    /// run this probe only
    only: Option<(String, Vec<i64>)>,
}

const MAX_VIOLS: usize = 24;

impl Ctx {
    fn new(tier: Tier) -> Ctx {
        Ctx {
            tier,
            config: String::new(),
            hist: String::new(),
            stats: BTreeMap::new(),
            outcomes: HashSet::new(),
            viols: Vec::new(),
            samples: Vec::new(),
            replaying: false,
            only: None,
        }
    }
    pub fn add(&mut self, name: &str, k: u64) {
        match self.stats.get_mut(name) {
            Some(v) => *v += k,
            None => {
                self.stats.insert(name.to_string(), k);
            }
        }
    }
    /// one real execution compared with the model in full
    pub fn trace(&mut self) {
        self.add("traces_validated_against_impl", 1)
    }
    /// an observed result; only used to count how many different ones there were
    pub fn outcome(&mut self, h: impl std::hash::Hash) {
        if self.outcomes.len() < 2_000_000 {
            use std::hash::{BuildHasher, BuildHasherDefault};
            let b = BuildHasherDefault::<std::collections::hash_map::DefaultHasher>::default();
            let v = b.hash_one(h);
            self.outcomes.insert(v);
        }
    }
    /// Executes something that must succeed for the property to hold
    pub fn probe(&mut self, tag: &str, vals: &[i64], f: impl FnOnce() -> Result<(), String>) -> bool {
        self.probe_key(tag, vals, "", f)
    }
    pub fn probe_key(&mut self, tag: &str, vals: &[i64], key: &str, f: impl FnOnce() -> Result<(), String>) -> bool {
        shm::begin(tag, vals);
        self.add("transitions", 1);
        if let Some((t, v)) = &self.only {
            if t != tag || v != vals {
                shm::end();
                return true;
            }
        }
        let r = tree::guarded(f);
        values::cb_disarm();
        shm::end();
        let msg = match r {
            Ok(Ok(())) => match values::ledger_error() {
                Ok(()) => {
                    if self.samples.len() < 4 && (self.samples.is_empty() || self.stats["transitions"] % 997 == 0) {
                        let s = format!("{} | {} | {} {:?}", self.config, self.hist, tag, vals);
                        self.samples.push(s);
                    }
                    return true;
                }
                Err(e) => e,
            },
            Ok(Err(e)) => {
                let _ = values::ledger_error();
                e
            }
            Err(p) => {
                let _ = values::ledger_error();
                format!("unexpected panic: {p}")
            }
        };
        self.fail(tag, vals, key, msg);
        false
    }
    pub fn fail(&mut self, tag: &str, vals: &[i64], key: &str, msg: String) {
        self.add("failures", 1);
        let key = if key.is_empty() { tag.to_string() } else { key.to_string() };
        if self.viols.iter().filter(|v| v.key == key).count() >= 2 || self.viols.len() >= MAX_VIOLS {
            return;
        }
        self.viols.push(Viol {
            key,
            config: self.config.clone(),
            hist: self.hist.clone(),
            tag: tag.to_string(),
            vals: vals.to_vec(),
            msg,
        });
    }
    /// Executes preparation that the property does not speak about. Failing is not a violation of
    /// this property; the case is skipped and counted.
    pub fn base<T>(&mut self, f: impl FnOnce() -> T) -> Option<T> {
        shm::begin("base", &[]);
        let r = tree::guarded(f);
        shm::end();
        match r {
            Ok(x) => Some(x),
            Err(e) => {
                if std::env::var_os("MC_LOUD").is_some() {
                    eprintln!("base: {e}");
                }
                self.add("base_states_not_constructible", 1);
                None
            }
        }
    }
}

pub struct Config {
    pub name: String,
    pub states: Box<dyn Fn(Tier, &mut Ctx) -> Vec<String>>,
    pub run: Box<dyn Fn(&mut Ctx, &str)>,
}

impl Config {
    pub fn new(
        name: impl Into<String>,
        states: impl Fn(Tier, &mut Ctx) -> Vec<String> + 'static,
        run: impl Fn(&mut Ctx, &str) + 'static,
    ) -> Config {
        Config { name: name.into(), states: Box::new(states), run: Box::new(run) }
    }
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub configs: Vec<Config>,
}

fn verif() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

pub fn drive(check: Check) {
    let args: Vec<String> = std::env::args().collect();
    let tier_of = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    match args.get(1).map(|s| s.as_str()) {
        Some("explore") => {
            worker_setup(&args[4]);
            explore(&check, tier_of(&args[2]), &args[3]);
        }
        Some("work") => {
            worker_setup(&args[4]);
            work(&check, tier_of(&args[2]), &args[3], args[5].parse().unwrap(), args[6].parse().unwrap(), &args[7]);
        }
        Some("replay") => std::process::exit(replay(&check, &args[2])),
        Some("one") => {
            // run everything on one base state: one <config> <state>
            std::process::exit(one(&check, &args[2], &args[3], None))
        }
        Some(t @ ("quick" | "thorough")) => std::process::exit(supervise(&check, tier_of(t))),
        _ => {
            eprintln!("usage: quick | thorough | replay FILE");
            std::process::exit(2)
        }
    }
}

fn quiet_panics() {
    if std::env::var_os("MC_LOUD").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}

fn limits() {
    unsafe {
        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &l);
        let m = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &m);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

fn worker_setup(shm_path: &str) {
    limits();
    quiet_panics();
    crate::alloc::enable_quarantine();
    let p = shm::map(shm_path);
    shm::init(&p);
}

static EXPLORE_UNTIL: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();

pub fn exploring_too_long() -> bool {
    EXPLORE_UNTIL.get().is_some_and(|t| Instant::now() > *t)
}

fn explore(check: &Check, tier: Tier, out: &str) {
    let _ = EXPLORE_UNTIL.set(Instant::now() + Duration::from_secs(tier.pick(120, 3600)));
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut ctx = Ctx::new(tier);
    for c in &check.configs {
        let st = (c.states)(tier, &mut ctx);
        ctx.add(&format!("states[{}]", c.name), st.len() as u64);
        for s in st {
            writeln!(f, "S\t{}\t{}", c.name, s).unwrap();
        }
    }
    for (k, v) in &ctx.stats {
        writeln!(f, "N\t{k}\t{v}").unwrap();
    }
    f.flush().unwrap();
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\t', "\\t").replace('\n', "\\n")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('t') => o.push('\t'),
                Some('n') => o.push('\n'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

fn cap(tier: Tier) -> Duration {
    let d = tier.pick(240, 7200);
    Duration::from_secs(std::env::var("MC_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(d))
}

fn work(check: &Check, tier: Tier, states: &str, shard: usize, n: usize, out: &str) {
    let text = std::fs::read_to_string(states).unwrap();
    let mut ctx = Ctx::new(tier);
    let start = Instant::now();
    let cap = cap(tier);
    let mut left_out = 0;
    for (i, line) in text.lines().filter(|l| l.starts_with("S\t")).enumerate() {
        if i % n != shard {
            continue;
        }
        if start.elapsed() > cap || ctx.viols.len() >= MAX_VIOLS {
            left_out += 1;
            continue;
        }
        let mut it = line.split('\t');
        it.next();
        let (c, s) = (it.next().unwrap(), it.next().unwrap_or(""));
        run_state(check, &mut ctx, c, s);
        ctx.add("states", 1);
    }
    ctx.add("states_left_out", left_out);
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for (k, v) in &ctx.stats {
        writeln!(f, "N\t{k}\t{v}").unwrap();
    }
    for o in &ctx.outcomes {
        writeln!(f, "O\t{o}").unwrap();
    }
    for s in &ctx.samples {
        writeln!(f, "E\t{}", esc(s)).unwrap();
    }
    for v in &ctx.viols {
        writeln!(f, "V\t{}", viol_line(v)).unwrap();
    }
    f.flush().unwrap();
}

fn viol_line(v: &Viol) -> String {
    let vals = v.vals.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    [&v.key, &v.config, &v.hist, &v.tag, &vals, &v.msg].map(|s| esc(s)).join("\t")
}
fn parse_viol(l: &str) -> Viol {
    let f: Vec<String> = l.split('\t').map(unesc).collect();
    Viol {
        key: f[0].clone(),
        config: f[1].clone(),
        hist: f[2].clone(),
        tag: f[3].clone(),
        vals: f[4].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
        msg: f[5].clone(),
    }
}

fn run_state(check: &Check, ctx: &mut Ctx, config: &str, state: &str) {
    let c = check.configs.iter().find(|c| c.name == config).expect("unknown configuration");
    ctx.config = config.to_string();
    ctx.hist = state.to_string();
    shm::set_history(&format!("{config}\t{state}"));
    values::cb_reset();
    if values::ledger().alive == 0 {
        values::ledger_reset();
    }
    (c.run)(ctx, state);
}

fn one(check: &Check, config: &str, state: &str, only: Option<&Viol>) -> i32 {
    quiet_panics();
    crate::alloc::enable_quarantine();
    shm::init_anonymous();
    let mut ctx = Ctx::new(Tier::Thorough);
    ctx.replaying = true;
    if std::env::var_os("MC_ONLY").is_some() {
        ctx.only = only.map(|o| (o.tag.clone(), o.vals.clone()));
    }
    run_state(check, &mut ctx, config, state);
    for v in &ctx.viols {
        println!("{} {:?}: {}", v.tag, v.vals, v.msg);
    }
    println!("{:?}", ctx.stats);
    match only {
        Some(o) if ctx.viols.iter().any(|v| v.key == o.key) => {
            println!("VIOLATION property={} (replayed)", check.id);
            1
        }
        Some(_) => {
            println!("not reproduced");
            0
        }
        None => !ctx.viols.is_empty() as i32,
    }
}

fn replay(check: &Check, file: &str) -> i32 {
    let text = std::fs::read_to_string(file).expect("replay file");
    let line = text.lines().find_map(|l| l.strip_prefix("case\t")).expect("case line");
    let mut v = parse_viol(line);
    if let Some(c) = v.config.strip_prefix(ALT) {
        if let (Some(alt), Err(_)) = (alternate(), std::env::var("MC_IS_ALT")) {
            let st = Command::new(alt).args(["replay", file]).env("MC_IS_ALT", "1").status().expect("alternate build");
            return st.code().unwrap_or(1);
        }
        v.config = c.to_string();
    }
    println!("property {}\nconfiguration {}\nbase state {}\nprobe {} {:?}\nreported {}", check.id, v.config, v.hist, v.tag, v.vals, v.msg);
    one(check, &v.config, &v.hist, Some(&v))
}

struct Known {
    key: String,
    text: String,
}

/// lines `known: property=<id> key=<key> <description>`; `fixed:` lines suppress nothing
fn known(id: &str) -> Vec<Known> {
    let mut v = Vec::new();
    if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.txt", verif())) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("known: ") {
                let mut w = r.splitn(3, ' ');
                let (p, k, d) = (w.next().unwrap_or(""), w.next().unwrap_or(""), w.next().unwrap_or(""));
                if p == format!("property={id}") {
                    if let Some(k) = k.strip_prefix("key=") {
                        v.push(Known { key: k.into(), text: d.into() });
                    }
                }
            }
        }
    }
    v
}

struct Proc {
    child: Child,
    page: shm::Page,
    shm: String,
    out: String,
    last: u64,
    since: Instant,
    done: bool,
}

/// The same check built without debug assertions and overflow checks, as users build it; cases
/// are run there as well if given
fn alternate() -> Option<String> {
    std::env::var("MC_ALT").ok().filter(|s| !s.is_empty())
}
const ALT: &str = "release build: ";

fn spawn(exe: &std::path::Path, dir: &str, name: &str, args: &[String]) -> Proc {
    let shm_path = format!("{dir}/{name}.shm");
    let page = shm::map(&shm_path);
    let mut a: Vec<String> = args.to_vec();
    for x in a.iter_mut() {
        if x == "@shm" {
            *x = shm_path.clone();
        }
    }
    let log = std::fs::File::create(format!("{dir}/{name}.log")).unwrap();
    let child = Command::new(exe)
        .args(&a)
        .stdin(Stdio::null())
        .stdout(log.try_clone().unwrap())
        .stderr(log)
        .spawn()
        .expect("cannot start worker");
    Proc { child, page, shm: shm_path, out: format!("{dir}/{name}.out"), last: 0, since: Instant::now(), done: false }
}

const STALL: Duration = Duration::from_secs(60);

/// Waits for all; the error is either a crash at a case (violation) or an error of the check
fn wait(procs: &mut [Proc], crashed: &mut Vec<Viol>) -> Result<(), String> {
    let kill = |procs: &mut [Proc]| {
        for p in procs.iter_mut() {
            if !p.done {
                let _ = p.child.kill();
                let _ = p.child.wait();
                p.done = true;
            }
        }
    };
    loop {
        let mut all = true;
        for i in 0..procs.len() {
            if procs[i].done {
                continue;
            }
            let p = &mut procs[i];
            let mut bad: Option<String> = None;
            match p.child.try_wait().map_err(|e| e.to_string())? {
                Some(st) if st.success() => {
                    p.done = true;
                    continue;
                }
                Some(st) => {
                    p.done = true;
                    let m = p.page.message();
                    bad = Some(if m.is_empty() { format!("the process died: {st}") } else { m });
                }
                None => {
                    all = false;
                    let now = p.page.progress();
                    if now != p.last {
                        p.last = now;
                        p.since = Instant::now();
                    } else if p.since.elapsed() > STALL {
                        let _ = p.child.kill();
                        let _ = p.child.wait();
                        p.done = true;
                        bad = Some(format!("the operation did not return within {} s", STALL.as_secs()));
                    }
                }
            }
            if let Some(msg) = bad {
                let (h, tag, vals) = p.page.case();
                if !p.page.in_case() && p.page.message().is_empty() {
                    let log = std::fs::read_to_string(p.shm.replace(".shm", ".log")).unwrap_or_default();
                    kill(procs);
                    return Err(format!("worker failed outside any case (last: {h} {tag} {vals:?}): {msg}\n{log}"));
                }
                let (c, s) = h.split_once('\t').unwrap_or(("", &h));
                crashed.push(Viol { key: format!("crash:{tag}"), config: c.into(), hist: s.into(), tag, vals, msg });
                kill(procs);
                return Ok(());
            }
        }
        if all {
            return Ok(());
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn supervise(check: &Check, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let dir = format!("{}/run/{}-{}", verif(), check.id, std::process::id());
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(1, 8);
    let mut crashed = Vec::new();
    let states = format!("{dir}/states");
    let t = tier.name().to_string();
    let args = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<String>>();
    let fail = |e: String| {
        eprintln!("error: {e}");
        let _ = std::fs::remove_dir_all(&dir);
        2
    };

    let exe = std::env::current_exe().unwrap();
    let mut ex = vec![spawn(&exe, &dir, "explore", &args(&["explore", &t, &states, "@shm"]))];
    if let Err(e) = wait(&mut ex, &mut crashed) {
        return fail(e);
    }
    let explored_in = t0.elapsed();
    let mut procs = Vec::new();
    if crashed.is_empty() {
        for k in 0..n {
            let name = format!("w{k}");
            let out = format!("{dir}/{name}.out");
            procs.push(spawn(&exe, &dir, &name, &args(&["work", &t, &states, "@shm", &k.to_string(), &n.to_string(), &out])));
        }
        if let Err(e) = wait(&mut procs, &mut crashed) {
            return fail(e);
        }
    }
    let mut alt_procs = Vec::new();
    if let (true, Some(alt)) = (crashed.is_empty(), alternate()) {
        for k in 0..n {
            let name = format!("a{k}");
            let out = format!("{dir}/{name}.out");
            alt_procs.push(spawn(alt.as_ref(), &dir, &name, &args(&["work", &t, &states, "@shm", &k.to_string(), &n.to_string(), &out])));
        }
        if let Err(e) = wait(&mut alt_procs, &mut crashed) {
            return fail(e);
        }
        for c in crashed.iter_mut() {
            c.config = format!("{ALT}{}", c.config);
        }
    }
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut outcomes: HashSet<String> = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    let mut viols: Vec<Viol> = crashed;
    let mut files: Vec<String> = procs.iter().map(|p| p.out.clone()).collect();
    files.push(states.clone());
    let plain = files.len();
    files.extend(alt_procs.iter().map(|p| p.out.clone()));
    for (nr, f) in files.iter().enumerate() {
        let alt = nr >= plain;
        let Ok(text) = std::fs::read_to_string(f) else { continue };
        for l in text.lines() {
            let Some((k, r)) = l.split_once('\t') else { continue };
            match k {
                "N" => {
                    let (a, b) = r.split_once('\t').unwrap();
                    if alt && !["transitions", "traces_validated_against_impl", "states_left_out", "failures"].contains(&a) {
                        continue;
                    }
                    if alt && a == "transitions" {
                        *stats.entry("transitions_in_the_build_without_debug_assertions".into()).or_insert(0) += b.parse::<u64>().unwrap();
                    }
                    *stats.entry(a.to_string()).or_insert(0) += b.parse::<u64>().unwrap();
                }
                "O" => {
                    outcomes.insert(r.to_string());
                }
                "E" => samples.push(unesc(r)),
                "V" => {
                    let mut v = parse_viol(r);
                    if alt {
                        v.config = format!("{ALT}{}", v.config);
                    }
                    viols.push(v)
                }
                _ => {}
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    viols.sort_by_key(|v| (v.hist.split_whitespace().count(), v.hist.len(), v.vals.len()));
    let known = known(check.id);
    let mut reported: Vec<String> = Vec::new();
    let mut known_hit: Vec<bool> = vec![false; known.len()];
    let mut new = 0;
    for v in &viols {
        if let Some(i) = known.iter().position(|k| k.key == v.key) {
            known_hit[i] = true;
            continue;
        }
        if reported.contains(&v.key) || reported.len() >= 6 {
            continue;
        }
        reported.push(v.key.clone());
        let rdir = format!("{}/replays", verif());
        let _ = std::fs::create_dir_all(&rdir);
        let file = format!("{rdir}/{}-{}.txt", check.id, new);
        let body = format!(
            "property {}\nconfiguration {}\nbase state (insertions pos:size:kind or as the check defines) {}\nprobe {} {:?}\nwhat {}\nreplay: /verif/check.sh {} replay {}\ncase\t{}\n",
            check.id, v.config, v.hist, v.tag, v.vals, v.msg, check.id, file, viol_line(v)
        );
        let _ = std::fs::write(&file, body);
        println!("VIOLATION property={} replay={}", check.id, file);
        println!("  {} | {} | {} {:?}: {}", v.config, v.hist, v.tag, v.vals, v.msg);
        new += 1;
    }
    for (i, k) in known.iter().enumerate() {
        if known_hit[i] {
            println!("KNOWN-FINDING: property={} {}", check.id, k.text);
        }
    }
    let left = stats.get("states_left_out").copied().unwrap_or(0);
    let wall = t0.elapsed().as_secs_f64();
    let mut cov: Vec<String> = Vec::new();
    samples.sort_by_key(|s| s.len());
    let pick: Vec<String> = samples.iter().step_by((samples.len() / 5).max(1)).take(6).map(|s| js(s)).collect();
    let (st, tr) = (stats.get("states").copied().unwrap_or(0), stats.get("transitions").copied().unwrap_or(0));
    match check.level {
        "model_checking" => {
            cov.push(format!("\"states\": {st}"));
            cov.push(format!("\"transitions\": {tr}"));
            cov.push(format!(
                "\"traces_validated_against_impl\": {}",
                stats.get("traces_validated_against_impl").copied().unwrap_or(0)
            ));
        }
        _ => {
            cov.push(format!("\"evaluations\": {tr}"));
            cov.push(format!("\"distinct_nontrivial\": {}", stats.get("nontrivial").copied().unwrap_or(0)));
            cov.push(format!("\"base_states\": {st}"));
        }
    }
    cov.push(format!("\"rule\": {}", js(check.rule)));
    cov.push(format!("\"distinct_outcomes_observed\": {}", outcomes.len()));
    cov.push(format!("\"exhaustive\": {}", left == 0 && stats.get("capped").copied().unwrap_or(0) == 0));
    cov.push(format!("\"samples\": [{}]", if pick.is_empty() { "\"none\"".into() } else { pick.join(", ") }));
    for (k, v) in &stats {
        if !["states", "transitions", "traces_validated_against_impl", "nontrivial"].contains(&k.as_str()) {
            cov.push(format!("{}: {v}", js(k)));
        }
    }
    cov.push(format!("\"workers\": {n}"));
    let ass: Vec<String> = check.assumptions.iter().map(|s| js(s)).collect();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": {},\n \"coverage\": {{\n  {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {new}\n}}\n",
        js(check.id),
        js(tier.name()),
        js(check.level),
        cov.join(",\n  "),
        ass.join(", "),
        wall
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif()));
    std::fs::write(format!("{}/evidence/{}.json", verif(), check.id), ev).expect("evidence");
    println!(
        "{} {}: states {st} (left out {left}), transitions {tr}, outcomes {}, exploration {:.1} s, total {:.1} s",
        check.id,
        tier.name(),
        outcomes.len(),
        explored_in.as_secs_f64(),
        wall
    );
    if new > 0 {
        1
    } else {
        0
    }
}

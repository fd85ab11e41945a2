//! No undefined behaviour, whatever the history and whatever user code does.
//!
//! The program in `miri/`, which is safe code only, is executed by the Miri interpreter, which knows
//! of every byte whether it is initialised, of every allocation whether it is alive, and of every
//! pointer what it may be used for.
use mc::common::*;
use mc::shm;
use std::io::{BufRead, BufReader};
use std::process::{Command, Stdio};

/// name, Miri's flags, features of the crate
const MODES: [(&str, &str, &str); 2] = [
    ("stacked", "-Zmiri-strict-provenance -Zmiri-symbolic-alignment-check -Zmiri-ignore-leaks -Zmiri-address-reuse-rate=1.0", ""),
    ("tree", "-Zmiri-tree-borrows -Zmiri-strict-provenance -Zmiri-symbolic-alignment-check -Zmiri-ignore-leaks -Zmiri-address-reuse-rate=1.0", "nightly"),
];

fn texts(m: usize, max_n: usize) -> Vec<String> {
    match m {
        1 => Shapes::explore::<1>(max_n, 100).texts(),
        2 => Shapes::explore::<2>(max_n, 100).texts(),
        _ => Shapes::explore::<3>(max_n, 100).texts(),
    }
}

struct Plan {
    groups: &'static [&'static str],
    /// for M = 1, 2, 3: all shapes with at most that many slices
    max: [usize; 3],
    turns: bool,
    /// parts to split a history's operations into, per slice
    split: usize,
    mode: usize,
}

fn plans(tier: Tier) -> Vec<Plan> {
    let p = |groups, max, turns, split, mode| Plan { groups, max, turns, split, mode };
    match tier {
        Tier::Quick => vec![
            p(&["plain"], [5, 5, 0], true, 0, 0),
            p(&["plain-cow", "plain-refs"], [3, 0, 0], true, 0, 0),
            p(&["plain-wide"], [4, 0, 7], true, 0, 0),
            p(&["plain-nil"], [4, 5, 0], true, 0, 0),
            p(&["walk", "walk-cow", "walk-refs"], [5, 5, 0], true, 0, 0),
            p(&["cow", "refs"], [1, 0, 0], false, 1, 0),
            p(&["cow", "refs"], [5, 5, 0], true, 0, 0),
            p(&["nil-cow", "nil-refs", "wide-cow"], [3, 0, 0], true, 0, 0),
            p(&["middle"], [3, 0, 0], true, 1, 0),
            p(&["panic", "panic-cow", "panic-refs"], [3, 0, 0], true, 2, 0),
            p(&["lies", "lies-cow", "lies-refs"], [1, 0, 0], true, 6, 0),
            p(&["lies-read", "lies-cow-read", "lies-refs-read"], [3, 0, 0], true, 1, 0),
            p(&["plain", "cow", "refs"], [3, 0, 0], true, 0, 1),
        ],
        Tier::Thorough => vec![
            p(&["plain", "plain-cow", "plain-refs"], [9, 10, 14], true, 0, 0),
            p(&["plain-nil", "plain-wide"], [7, 7, 8], true, 0, 0),
            p(&["walk", "walk-cow", "walk-refs"], [9, 10, 8], true, 0, 0),
            p(&["cow", "refs"], [5, 6, 7], false, 1, 0),
            p(&["cow", "refs"], [8, 10, 14], true, 1, 0),
            p(&["nil-cow", "nil-refs", "wide-cow"], [5, 6, 0], false, 1, 0),
            p(&["middle"], [6, 6, 0], false, 2, 0),
            p(&["panic", "panic-cow", "panic-refs"], [6, 6, 7], false, 3, 0),
            p(&["lies", "lies-cow", "lies-refs"], [4, 5, 0], false, 6, 0),
            p(&["plain", "cow", "refs", "middle", "panic", "panic-cow", "panic-refs"], [4, 5, 0], true, 2, 1),
            p(&["lies-read", "lies-cow-read", "lies-refs-read"], [7, 8, 0], true, 3, 0),
            p(&["lies", "lies-cow", "lies-refs"], [2, 0, 0], true, 6, 1),
        ],
    }
}

fn states(tier: Tier) -> Vec<String> {
    let mut out = vec![];
    for p in plans(tier) {
        for m in 1..=3 {
            if p.max[m - 1] == 0 {
                continue;
            }
            for h in texts(m, p.max[m - 1]) {
                let n = h.split_whitespace().count();
                let of = (p.split * n).max(1);
                for g in p.groups {
                    for i in 0..of {
                        let turns = if p.turns { "w" } else { "" };
                        out.push((n, format!("{g}|{m}|{turns}s{i}/{of}|{}|{h}", MODES[p.mode].0)));
                    }
                }
            }
        }
    }
    // small ones first
    out.sort_by_key(|(n, _)| *n);
    out.into_iter().map(|(_, s)| s).collect()
}

fn miri(mode: &str, args: &[&str]) -> Command {
    let root = std::env::var("VERIF_DIR").unwrap_or("/verif".into());
    let (_, flags, features) = MODES.iter().find(|m| m.0 == mode).unwrap();
    let mut c = Command::new("timeout");
    c.args(["-k", "1", "3600", "cargo", "+nightly", "miri", "run", "-q", "--offline", "--locked", "--manifest-path"])
        .arg(format!("{root}/miri/Cargo.toml"))
        .arg("--target-dir")
        .arg(format!("{root}/target/miri{features}"))
        .args(["--features", features])
        .arg("--")
        .args(args)
        .env("RUSTFLAGS", "-Awarnings")
        .env("MIRIFLAGS", flags)
        .env("RUST_BACKTRACE", "0")
        .env_remove("RUSTUP_TOOLCHAIN")
        .stdin(Stdio::null());
    c
}

fn no_answer(why: &str) -> ! {
    eprintln!("no answer: {why}");
    std::process::exit(4);
}

/// What Miri says, in short
fn verdict(err: &str) -> Result<String, String> {
    let at = err.lines().position(|l| l.starts_with("error: Undefined Behavior") || l.starts_with("error: abnormal termination"));
    let Some(at) = at else {
        return Err(err.chars().rev().take(1500).collect::<Vec<_>>().into_iter().rev().collect());
    };
    let mut s = err.lines().nth(at).unwrap().trim_start_matches("error: ").to_string();
    // where in the tree's code
    if let Some(l) = err.lines().skip(at).find(|l| l.contains("src/tree/") || l.contains("/repo/src/")) {
        s += &format!(" ({})", l.trim().trim_start_matches("-->").trim_start_matches(|c: char| c.is_numeric() || c == ':').trim());
    }
    Ok(s)
}

fn run(ctx: &mut Ctx, state: &str) {
    let f: Vec<&str> = state.splitn(5, '|').collect();
    let (group, m, flags, mode, hist) = (f[0], f[1], f[2], f[3], f[4]);
    let errs = std::env::temp_dir().join(format!("p24-{}.err", std::process::id()));
    let file = std::fs::File::create(&errs).unwrap_or_else(|e| no_answer(&e.to_string()));
    let mut child = match miri(mode, &[group, m, flags, hist]).stdout(Stdio::piped()).stderr(file).spawn() {
        Ok(c) => c,
        Err(e) => no_answer(&e.to_string()),
    };
    let mut lines = BufReader::new(child.stdout.take().unwrap()).lines();
    let mut n = 0i64;
    let problem = loop {
        shm::begin("case", &[n]);
        let l = lines.next();
        shm::end();
        match l {
            Some(Ok(l)) if l == "." => {
                ctx.probe("case", &[n], || Ok(()));
                ctx.trace();
                n += 1;
            }
            Some(Ok(l)) if l.starts_with("done ") => break None,
            Some(Ok(l)) if l.starts_with("BAD ") => break Some(l[4..].to_string()),
            Some(Ok(_)) => {}
            _ => break Some(String::new()),
        }
    };
    let status = child.wait();
    let err = std::fs::read_to_string(&errs).unwrap_or_default();
    let _ = std::fs::remove_file(&errs);
    ctx.add("nontrivial", !hist.is_empty() as u64);
    ctx.outcome((group, n));
    let Some(mut msg) = problem else { return };
    if msg.is_empty() {
        msg = match verdict(&err) {
            Ok(m) => m,
            Err(e) => no_answer(&format!("{status:?} {e}")),
        };
    }
    // what case it was
    shm::begin("describe", &[]);
    let again = miri(mode, &[group, m, &format!("v{flags}"), hist]).stderr(Stdio::null()).output();
    shm::end();
    if let Ok(o) = again {
        let out = String::from_utf8_lossy(&o.stdout).to_string();
        if let Some(c) = out.lines().rev().find_map(|l| l.strip_prefix("CASE ")) {
            msg += &format!("; case: {group} M={m} after \"{hist}\": {c}");
        }
    }
    ctx.probe("case", &[n], || Err(msg));
}

fn main() {
    drive(Check {
        id: "P24",
        level: "model_checking",
        rule: "in the interpreter: for every shape of tree with few slices, every insertion (each boundary, the middle of each slice, joining or not) with everything read afterwards; iteration in every order of steps, lookups with every hint; clones and references used before, during and after it; user code panicking, answering wrongly (comparisons, arithmetic, joins) or using another tree at every one of its calls; nontrivial: the tree was not empty",
        assumptions: &["Miri's notion of undefined behaviour (Stacked Borrows, for a part also Tree Borrows); one choice of addresses, reusing what was freed whenever possible; internal assertions compiled out, as in a release build"],
        configs: vec![Config::new("interpreted", |t, _| states(t), run)],
    })
}

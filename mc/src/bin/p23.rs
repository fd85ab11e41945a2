//! Safe code cannot reach a value that is gone.
//!
//! Every program up to a length in a small language (make data, a tree of slices borrowing it, and
//! something got from the tree; then use, change, replace, drop, forget them in any order, with
//! every order of declaration) is given to the compiler. What it accepts is executed: no slice may
//! be seen or dropped when it, or what it borrows, is gone. What a plain reading of the signatures
//! says must be accepted has to be accepted.
use mc::common::*;
use std::collections::BTreeSet;
use std::path::PathBuf;
use std::process::Command;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum P {
    NoFeatures,
    AllowCow,
    AllowSliceRefs,
}
/// slices that look at the data when dropped, that do not; indexes that borrow
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum V {
    Dropper,
    Ref,
    Idx,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Loan {
    /// borrows nothing but the data
    None,
    Tree,
    Reference,
}
struct Kind {
    name: &'static str,
    /// how to make it from `t` (and `r`, a reference)
    make: &'static str,
    look: &'static str,
    loan: Loan,
    /// needs a reference first
    r: bool,
    ps: &'static [P],
    /// may the model say that programs have to be accepted
    must: bool,
}
use P::*;
const ALL: &[P] = &[NoFeatures, AllowCow, AllowSliceRefs];
const R: &[P] = &[AllowSliceRefs];
const KINDS: &[Kind] = &[
    Kind { name: "clone", make: "t.clone()", look: "lookt(&x)", loan: Loan::None, r: false, ps: &[NoFeatures, AllowCow], must: true },
    Kind { name: "entry", make: "t.get(ix(2, &d))", look: "{ x.slice().look(); x.range().start.look(); x.size().look(); }", loan: Loan::Tree, r: false, ps: ALL, must: true },
    Kind { name: "entry-clone", make: "t.get(ix(2, &d)).clone()", look: "{ x.slice().look(); x.range().start.look(); }", loan: Loan::Tree, r: false, ps: &[NoFeatures], must: true },
    Kind { name: "entry-iter", make: "t.iter(..).rev().next().unwrap()", look: "{ x.slice().look(); x.range().start.look(); }", loan: Loan::Tree, r: false, ps: &[NoFeatures, AllowSliceRefs], must: true },
    Kind { name: "slice", make: "t.get(ix(2, &d)).slice()", look: "x.look()", loan: Loan::Tree, r: false, ps: ALL, must: true },
    Kind { name: "slice-iter", make: "t.iter(..).map(|e| e.slice()).last().unwrap()", look: "x.look()", loan: Loan::Tree, r: false, ps: &[AllowCow], must: true },
    Kind { name: "range", make: "t.get(ix(2, &d)).range()", look: "x.start.look()", loan: Loan::None, r: false, ps: &[NoFeatures], must: true },
    Kind { name: "iter", make: "t.iter(..)", look: "{ x.next().map(|e| e.slice().look()); x.next_back().map(|e| e.range().start.look()); }", loan: Loan::Tree, r: false, ps: ALL, must: true },
    Kind { name: "iter-hint", make: "t.iter_with_cursor(t.cursor_to::<BoundedCursor>(ix(2, &d)), ..ix(3, &d))", look: "{ x.next_back().map(|e| e.slice().look()); }", loan: Loan::Tree, r: false, ps: &[NoFeatures], must: true },
    Kind { name: "make-ref", make: "t.get(ix(2, &d)).make_ref()", look: "{ if let Some(b) = x.try_borrow_slice() { b.look() } x.try_range().map(|r| r.start.look()); x.is_valid(); }", loan: Loan::None, r: false, ps: R, must: true },
    Kind { name: "insert-ref", make: "t.insert_ref(ix(2, &d), sl(&d), ix(1, &d))", look: "{ if let Some(b) = x.try_borrow_slice() { b.look() } x.try_range().map(|r| r.start.look()); }", loan: Loan::None, r: false, ps: R, must: true },
    Kind { name: "ref-clone", make: "r.clone()", look: "{ if let Some(b) = x.try_borrow_slice() { b.look() } }", loan: Loan::None, r: true, ps: R, must: true },
    Kind { name: "borrow", make: "r.borrow_slice()", look: "x.look()", loan: Loan::Reference, r: true, ps: R, must: true },
    Kind { name: "try-borrow", make: "r.try_borrow_slice()", look: "x.as_ref().map(|b| b.look())", loan: Loan::Reference, r: true, ps: R, must: true },
    Kind { name: "borrow-map", make: "Borrow::map(r.borrow_slice(), |s| s.part())", look: "x.look()", loan: Loan::Reference, r: true, ps: R, must: true },
    Kind { name: "borrow-clone", make: "r.borrow_slice().clone()", look: "x.look()", loan: Loan::Reference, r: true, ps: R, must: true },
    Kind { name: "ref-range", make: "r.range()", look: "x.start.look()", loan: Loan::None, r: true, ps: R, must: true },
    Kind { name: "borrow-deref", make: "Deref::deref(&r.borrow_slice())", look: "x.look()", loan: Loan::Reference, r: true, ps: R, must: false },
    Kind { name: "map-leak", make: "{ let mut out = None; drop(Borrow::map(r.borrow_slice(), |s| { out = Some(s); s })); out }", look: "{ x.map(|s| s.look()); }", loan: Loan::Reference, r: true, ps: R, must: false },
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ev {
    Use,
    UseTree,
    Mutate,
    Replace,
    DropTree,
    DropData,
    DropX,
    DropRef,
    ForgetX,
    ForgetTree,
}
const EVS: [Ev; 10] = [Ev::Use, Ev::UseTree, Ev::Mutate, Ev::Replace, Ev::DropTree, Ev::DropData, Ev::DropX, Ev::DropRef, Ev::ForgetX, Ev::ForgetTree];

#[derive(Clone, Debug)]
struct Prog {
    /// order of declaration: indexes into d, t, x, r
    decl: Vec<usize>,
    evs: Vec<Ev>,
}

fn perms(v: &[usize]) -> Vec<Vec<usize>> {
    if v.is_empty() {
        return vec![vec![]];
    }
    let mut out = vec![];
    for i in 0..v.len() {
        let mut rest = v.to_vec();
        let a = rest.remove(i);
        for mut p in perms(&rest) {
            p.insert(0, a);
            out.push(p);
        }
    }
    out
}

/// Sequences of events without anything that is plainly a use after a move
fn seqs(max: usize, r: bool) -> Vec<Vec<Ev>> {
    fn go(max: usize, r: bool, cur: &mut Vec<Ev>, out: &mut Vec<Vec<Ev>>) {
        out.push(cur.clone());
        if cur.len() == max {
            return;
        }
        // what has been moved out
        let (mut d, mut t, mut x, mut rr) = (true, true, true, true);
        for e in cur.iter() {
            match e {
                Ev::DropTree | Ev::ForgetTree => t = false,
                Ev::Replace => t = true,
                Ev::DropData => d = false,
                Ev::DropX | Ev::ForgetX => x = false,
                Ev::DropRef => rr = false,
                _ => {}
            }
        }
        for e in EVS {
            let ok = match e {
                Ev::Use | Ev::DropX | Ev::ForgetX => x,
                Ev::UseTree | Ev::DropTree | Ev::ForgetTree => t,
                Ev::Mutate => t && d,
                Ev::Replace => d,
                Ev::DropData => d,
                Ev::DropRef => r && rr,
            };
            if ok && cur.last() != Some(&e) {
                cur.push(e);
                go(max, r, cur, out);
                cur.pop();
            }
        }
    }
    let mut out = vec![];
    go(max, r, &mut vec![], &mut out);
    out
}

const D: usize = 0;
const T: usize = 1;
const X: usize = 2;
const RR: usize = 3;

/// May the compiler be expected to accept this? Every variable that still has its value at the end
/// counts as used there, except (`dangle`) the tree. `None`: no expectation.
fn acceptable(k: &Kind, v: V, g: &Prog, dangle: bool) -> bool {
    // every step may panic, and then everything is dropped from there
    (0..=g.evs.len()).all(|n| acceptable_path(k, v, &Prog { decl: g.decl.clone(), evs: g.evs[..n].to_vec() }, dangle))
}
fn acceptable_path(k: &Kind, v: V, g: &Prog, dangle: bool) -> bool {
    // what happens, in order: (variables used, variable moved out or ending, tree changed)
    #[derive(Default)]
    struct Step {
        used: Vec<usize>,
        ends: Option<usize>,
        changes_tree: bool,
    }
    let mut steps: Vec<Step> = vec![];
    let mut have = [true, true, true, k.r];
    for e in &g.evs {
        let s = match e {
            Ev::Use => Step { used: vec![X], ..Default::default() },
            Ev::UseTree => Step { used: vec![T], ..Default::default() },
            Ev::Mutate => Step { used: vec![T, D], changes_tree: true, ..Default::default() },
            Ev::Replace => {
                let used = if have[T] { vec![T, D] } else { vec![D] };
                have[T] = true;
                Step { used, changes_tree: true, ..Default::default() }
            }
            Ev::DropTree | Ev::ForgetTree => {
                have[T] = false;
                Step { used: vec![T], ends: Some(T), changes_tree: true }
            }
            Ev::DropData => {
                have[D] = false;
                Step { used: vec![D], ends: Some(D), ..Default::default() }
            }
            Ev::DropX | Ev::ForgetX => {
                have[X] = false;
                Step { used: vec![X], ends: Some(X), ..Default::default() }
            }
            Ev::DropRef => {
                have[RR] = false;
                Step { used: vec![RR], ends: Some(RR), ..Default::default() }
            }
        };
        steps.push(s);
    }
    for i in g.decl.iter().rev() {
        if have[*i] {
            let unused = *i == T && dangle || *i == X && k.name == "clone" && dangle;
            steps.push(Step { used: if unused { vec![] } else { vec![*i] }, ends: Some(*i), changes_tree: *i == T });
        }
    }
    // a value is live where a later step uses it before it is replaced
    let live = |from: usize, var: usize| {
        for s in &steps[from..] {
            if s.used.contains(&var) {
                return true;
            }
            if s.ends == Some(var) {
                return false;
            }
        }
        false
    };
    // the tree may be given a new value later: what counts is the value it has now
    let tree_live = |from: usize| {
        let mut at = from;
        for s in &steps[from..] {
            if s.used.contains(&T) {
                return true;
            }
            if s.changes_tree {
                return false;
            }
            at += 1;
        }
        let _ = at;
        false
    };
    let x_has_data = !(matches!(k.name, "range" | "ref-range") && v != V::Idx);
    for (n, s) in steps.iter().enumerate() {
        // the data ends: nothing that mentions its lifetime may be used afterwards
        if s.ends == Some(D) && (tree_live(n + 1) || k.r && live(n + 1, RR) || x_has_data && live(n + 1, X)) {
            return false;
        }
        // the tree changes, moves or ends: what borrows it may not be used afterwards
        if s.changes_tree && k.loan == Loan::Tree && live(n + 1, X) {
            return false;
        }
        if s.ends == Some(RR) && k.loan == Loan::Reference && live(n + 1, X) {
            return false;
        }
    }
    true
}

fn code(k: &Kind, g: &Prog) -> String {
    let mut s = String::new();
    for i in &g.decl {
        s += ["let d; ", "let mut t; ", "let mut x; ", "let r; "][*i];
    }
    s += "d = Data::new(); t = Tr::new_empty(); fill!(t, &d); ";
    if k.r {
        s += "r = t.get(ix(2, &d)).make_ref(); ";
    }
    s += &format!("x = {}; ", k.make);
    for e in &g.evs {
        s += &match e {
            Ev::Use => format!("{}; ", k.look),
            Ev::UseTree => "lookt(&t); ".into(),
            Ev::Mutate => "t.insert(ix(1, &d), sl(&d), ix(2, &d)); ".into(),
            Ev::Replace => "t = Tr::new_empty(); fill!(t, &d); ".into(),
            Ev::DropTree => "drop(t); ".into(),
            Ev::DropData => "drop(d); ".into(),
            Ev::DropX => "drop(x); ".to_string(),
            Ev::DropRef => "drop(r); ".into(),
            Ev::ForgetX => "forget(x); ".into(),
            Ev::ForgetTree => "forget(t); ".into(),
        };
    }
    s
}

fn head(p: P, v: V) -> String {
    let (i, s, ix, sl) = match v {
        V::Dropper => ("usize", "D<'a>", "n", "D::new(d)"),
        V::Ref => ("usize", "K<'a>", "n", "K::new(d)"),
        V::Idx => ("X<'a>", "Plain", "X::of(n, d)", "Plain(Inner2(0x1234_5678))"),
    };
    let i2 = i.replace("'a", "'_");
    let ixdef = if v == V::Idx { format!("fn ix<'a>(n: usize, d: &'a Data) -> X<'a> {{ {ix} }}") } else { format!("fn ix(n: usize, d: &Data) -> {i2} {{ {ix} }}") };
    let sldef = if v == V::Idx { format!("fn sl(d: &Data) -> Plain {{ {sl} }}") } else { format!("fn sl<'a>(d: &'a Data) -> {s} {{ {sl} }}") };
    format!("{}\ntype Tr<'a> = RleTree<{i}, {s}, {p:?}, 1>;\n{ixdef}\n{sldef}\n", include_str!("../life/prelude.rs"))
}

struct Outcome {
    accepted: Vec<bool>,
    reasons: Vec<String>,
    bad: Vec<Option<String>>,
}

fn compile(nightly: bool, dir: &PathBuf, src: &str, link: bool) -> Result<Vec<(usize, String)>, String> {
    let libs = std::env::var("LIFE_LIBS").map_err(|_| "LIFE_LIBS is not set (run through check.sh)".to_string())?;
    let chain = if nightly { "nightly" } else { "stable" };
    let file = dir.join("main.rs");
    std::fs::write(&file, src).map_err(|e| e.to_string())?;
    // the supervisor wants to see that something goes on
    mc::shm::begin("compile", &[]);
    mc::shm::end();
    let out = Command::new("timeout")
        .args(["55", "rustc"])
        .env("RUSTUP_TOOLCHAIN", format!("{chain}-x86_64-unknown-linux-gnu"))
        .args(["--edition", "2021", "--crate-name", "programs", "-Awarnings", "--error-format=json", "-Cdebuginfo=0", "-Ccodegen-units=1"])
        .arg(if link { "--emit=link" } else { "--emit=metadata" })
        .arg("--extern")
        .arg(format!("sherman={libs}/{chain}/libsherman.rlib"))
        .arg("-o")
        .arg(dir.join(if link { "programs" } else { "programs.rmeta" }))
        .arg(&file)
        .output()
        .map_err(|e| format!("rustc: {e}"))?;
    let mut errs = vec![];
    for l in String::from_utf8_lossy(&out.stderr).lines() {
        let Some((_, at)) = l.split_once("\"level\":\"error\"") else { continue };
        let msg = l.split("\"message\":\"").nth(1).and_then(|m| m.split("\",\"").next()).unwrap_or("?").to_string();
        // the primary span is the one with is_primary
        let mut line = None;
        for sp in l.split("{\"file_name\":").skip(1) {
            if sp.contains("\"is_primary\":true") && sp.contains("main.rs") {
                line = sp.split("\"line_start\":").nth(1).and_then(|x| x.split(',').next()).and_then(|x| x.parse::<usize>().ok());
                break;
            }
        }
        let _ = at;
        match line {
            Some(n) => errs.push((n, msg)),
            None if msg.starts_with("aborting due to") => {}
            None => return Err(format!("unexpected error of the compiler: {msg}")),
        }
    }
    if !out.status.success() && errs.is_empty() {
        return Err(format!("the compiler failed: {}", String::from_utf8_lossy(&out.stderr).chars().take(600).collect::<String>()));
    }
    Ok(errs)
}

fn judge_all(nightly: bool, p: P, v: V, k: &Kind, progs: &[Prog], dir: &PathBuf) -> Result<Outcome, String> {
    let head = head(p, v);
    let base = head.lines().count() + 1;
    let mut accepted = vec![true; progs.len()];
    let mut reasons = vec![String::new(); progs.len()];
    let source = |accepted: &[bool]| {
        let mut s = head.clone();
        let mut names = vec![];
        for (n, g) in progs.iter().enumerate() {
            if accepted[n] {
                s += &format!("fn p{n}() {{ {} }}\n", code(k, g));
                names.push(n);
            } else {
                s += "\n";
            }
        }
        s += &format!("static PROGRAMS: &[fn()] = &[{}];\n", names.iter().map(|n| format!("p{n}")).collect::<Vec<_>>().join(", "));
        (s, names)
    };
    for round in 0.. {
        if round == 6 {
            return Err("the compiler keeps finding more errors".into());
        }
        let (s, _) = source(&accepted);
        let errs = compile(nightly, dir, &s, false)?;
        if errs.is_empty() {
            break;
        }
        for (line, msg) in errs {
            let n = line.wrapping_sub(base);
            if n >= progs.len() {
                return Err(format!("error outside of the programs, line {line}: {msg}"));
            }
            accepted[n] = false;
            reasons[n] = msg;
        }
    }
    let (s, names) = source(&accepted);
    let mut bad = vec![None; progs.len()];
    if !names.is_empty() {
        let errs = compile(nightly, dir, &s, true)?;
        if let Some(e) = errs.first() {
            return Err(format!("line {}: {}", e.0, e.1));
        }
        let mut from = 0;
        while from < names.len() {
            let out = Command::new("timeout").arg("50").arg(dir.join("programs")).arg(from.to_string()).output().map_err(|e| e.to_string())?;
            let text = String::from_utf8_lossy(&out.stdout).to_string();
            let mut last = from;
            for l in text.lines() {
                if l == "done" {
                    last = names.len();
                    break;
                }
                match l.split_once(' ') {
                    None => last = l.parse().unwrap_or(last),
                    Some((n, b)) => {
                        if let Ok(n) = n.parse::<usize>() {
                            bad[names[n]] = Some(b.to_string());
                        }
                    }
                }
            }
            if last < names.len() {
                bad[names[last]].get_or_insert_with(|| format!("the process died ({:?})", out.status));
                last += 1;
            }
            from = last;
        }
    }
    Ok(Outcome { accepted, reasons, bad })
}

/// programs given to the compiler at once
const CHUNK: usize = 600;

fn programs(max: usize, k: &Kind) -> Vec<Prog> {
    let vars = if k.r { vec![D, T, X, RR] } else { vec![D, T, X] };
    let mut progs = vec![];
    for evs in seqs(max, k.r) {
        for decl in perms(&vars) {
            progs.push(Prog { decl, evs: evs.clone() });
        }
    }
    progs
}

fn states(tier: Tier) -> Vec<String> {
    let max = tier.pick(2, 3);
    let mut out = vec![];
    for chain in ["stable", "nightly"] {
        for (ki, k) in KINDS.iter().enumerate() {
            for p in k.ps {
                for v in [V::Dropper, V::Ref, V::Idx] {
                    let n = programs(max, k).len().div_ceil(CHUNK);
                    for c in 0..n {
                        out.push(format!("{chain}/{p:?}/{v:?}/{ki}/{max}/{c}"));
                    }
                }
            }
        }
    }
    out
}

fn run(ctx: &mut Ctx, state: &str) {
    let f: Vec<&str> = state.split('/').collect();
    let nightly = f[0] == "nightly";
    let p = *ALL.iter().find(|p| format!("{p:?}") == f[1]).unwrap();
    let v = *[V::Dropper, V::Ref, V::Idx].iter().find(|v| format!("{v:?}") == f[2]).unwrap();
    let k = &KINDS[f[3].parse::<usize>().unwrap()];
    let (max, chunk): (usize, usize) = (f[4].parse().unwrap(), f[5].parse().unwrap());
    let progs: Vec<Prog> = programs(max, k).into_iter().skip(chunk * CHUNK).take(CHUNK).collect();
    let dir = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into())).join("target/life").join(format!("w{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let o = judge_all(nightly, p, v, k, &progs, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    let o = match o {
        Ok(o) => o,
        Err(e) => {
            eprintln!("no answer: {e}");
            std::process::exit(4);
        }
    };
    // `#[may_dangle]` is there for trees without slice references whose slices do not care
    let dangle = nightly && p != P::AllowSliceRefs && v != V::Dropper;
    let mut kinds_of_errors = BTreeSet::new();
    for (n, g) in progs.iter().enumerate() {
        ctx.probe("program", &[n as i64], || {
            if let Some(b) = &o.bad[n] {
                return Err(format!("{b}, in the accepted program: {}", code(k, g)));
            }
            if !o.accepted[n] && k.must && acceptable(k, v, g, dangle) {
                return Err(format!("rejected ({}) although nothing is used after it is gone: {}", o.reasons[n], code(k, g)));
            }
            Ok(())
        });
        ctx.trace();
        ctx.add(if o.accepted[n] { "programs accepted and executed" } else { "programs rejected" }, 1);
        ctx.add("nontrivial", o.accepted[n] as u64);
        ctx.add("accepted beyond what has to be", (o.accepted[n] && !(k.must && acceptable(k, v, g, dangle))) as u64);
        if let (Some(file), false) = (std::env::var_os("LIFE_REASONS"), o.accepted[n]) {
            use std::io::Write;
            let mut f = std::fs::OpenOptions::new().append(true).create(true).open(file).unwrap();
            writeln!(f, "{} {}", k.name, o.reasons[n]).unwrap();
        }
        kinds_of_errors.insert(o.reasons[n].split('`').next().unwrap_or("").to_string());
    }
    ctx.outcome((state, kinds_of_errors));
}

fn main() {
    drive(Check {
        id: "P23",
        level: "model_checking",
        rule: "every program up to a number of events (use, change, replace, drop or forget of the tree; use, drop or forget of what was got from it; drop of the reference, of the data), for every order of declaration, everything one can get from a tree, every configuration and slices or indexes that borrow data, with and without the nightly feature: whatever the compiler accepts is executed and no slice is seen or dropped when it or its data is gone; what a model of lifetimes says is fine has to be accepted; nontrivial: the program was accepted",
        assumptions: &["the compiler's own judgement of lifetimes is sound; programs use the tree's public interface without unsafe"],
        configs: vec![Config::new("programs", |t, _| states(t), run)],
    })
}

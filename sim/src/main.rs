//! Deterministic simulation of kicad_parse_gen with fault injection.
#![allow(invalid_runtime_symbol_definitions)]
#![allow(static_mut_refs)]

mod alloc;
mod choice;
mod gen;
mod interpose;
mod json;
mod kernel;
mod logger;
mod props;
mod raw;
mod run;
mod sched;
mod shrink;
mod util;

use json::J;
use props::Prop;
use run::{exec, seed_of, Outcome, Source, Viol};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

#[global_allocator]
static ALLOC: alloc::A = alloc::A;

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn main() {
    // the standard library's handler for stack overflows allocates, and an overflow inside the
    // allocator would block there for ever
    unsafe {
        libc::signal(libc::SIGSEGV, libc::SIG_DFL);
        libc::signal(libc::SIGBUS, libc::SIG_DFL);
    }
    let args: Vec<String> = std::env::args().collect();
    run::init_process();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(&args),
        Some("replay") => replay(&args),
        Some("trace") => trace(&args),
        Some("det") => det(&args),
        Some("list") => {
            for p in props::ALL {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: ksim check --prop ID --root DIR [--tier quick|thorough] [--seed N] [--runs N]");
            eprintln!("       ksim replay FILE | trace --prop ID --index N [--seed N] | det --prop ID [--runs N]");
            2
        }
    };
    std::process::exit(code);
}

fn find(id: &str) -> &'static Prop {
    match props::ALL.iter().find(|p| p.id == id) {
        Some(p) => {
            run::OWN_LOGGER.store(id == "S20", Ordering::SeqCst);
            p
        }
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
    }
}

/// the body and random source of a run index: the directed cases come first
fn body_of(p: &'static Prop, seed: u64, index: u64) -> (fn() -> run::R, Source) {
    let d = p.directed.len() as u64;
    let s = seed_of(seed, p.id, index);
    if index < d {
        (p.directed[index as usize].1, Source::Seed(s))
    } else {
        (p.run, Source::Seed(s))
    }
}

struct Part {
    runs: u64,
    steps: u64,
    simtime: u64,
    stats: BTreeMap<String, u64>,
    hashes: Vec<u64>,
    nontrivial: u64,
    fail: Option<u64>,
}

fn worker(p: &'static Prop, seed: u64, from: u64, stride: u64, total: u64, skip: &BTreeSet<u64>, minfail: &AtomicU64, out: i32) {
    let mut part = Part { runs: 0, steps: 0, simtime: 0, stats: BTreeMap::new(), hashes: vec![], nontrivial: 0, fail: None };
    let mut i = from;
    while i < total && i < minfail.load(Ordering::SeqCst) {
        if skip.contains(&i) {
            i += stride;
            continue;
        }
        let (b, s) = body_of(p, seed, i);
        let o = exec(b, s, false);
        part.runs += 1;
        part.steps += o.steps;
        part.simtime += o.simtime;
        for (n, v) in o.stats {
            *part.stats.entry(n).or_insert(0) += v;
        }
        if o.nontrivial {
            part.nontrivial += 1;
            part.hashes.push(o.hash);
        }
        if o.viol.is_some() {
            part.fail = Some(i);
            minfail.fetch_min(i, Ordering::SeqCst);
            break;
        }
        i += stride;
    }
    let mut s = format!(
        "{} {} {} {} {}\n{}\n",
        part.runs, part.steps, part.simtime, part.nontrivial,
        part.fail.map(|x| x as i64).unwrap_or(-1),
        part.stats.len()
    );
    for (n, v) in &part.stats {
        s.push_str(&format!("{} {}\n", n, v));
    }
    let mut b = s.into_bytes();
    b.extend_from_slice(format!("{}\n", part.hashes.len()).as_bytes());
    for h in &part.hashes {
        b.extend_from_slice(&h.to_le_bytes());
    }
    raw::write_all(out, &b);
    raw::exit_group(0);
}

struct Total {
    runs: u64,
    steps: u64,
    simtime: u64,
    stats: BTreeMap<String, u64>,
    hashes: BTreeSet<u64>,
    nontrivial: u64,
    fail: Option<u64>,
}

fn shared_u64() -> &'static AtomicU64 {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0,
        );
        assert!(p != libc::MAP_FAILED);
        let a = &*(p as *const AtomicU64);
        a.store(u64::MAX, Ordering::SeqCst);
        a
    }
}

/// explore the indices 0..total with `nw` worker processes
fn explore(p: &'static Prop, seed: u64, total: u64, nw: u64, skip: &BTreeSet<u64>) -> Total {
    let minfail = shared_u64();
    let mut pipes = vec![];
    for w in 0..nw {
        let mut fds = [0i32; 2];
        unsafe {
            assert!(libc::pipe(fds.as_mut_ptr()) == 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                // a new shared region per worker
                run::init_process();
                worker(p, seed, w, nw, total, skip, minfail, fds[1]);
            }
            raw::sys6(libc::SYS_close, fds[1] as i64, 0, 0, 0, 0, 0);
            pipes.push((pid, fds[0]));
        }
    }
    let mut t = Total { runs: 0, steps: 0, simtime: 0, stats: BTreeMap::new(), hashes: BTreeSet::new(), nontrivial: 0, fail: None };
    for (pid, fd) in pipes {
        let mut b = vec![];
        let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
        f.read_to_end(&mut b).unwrap();
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        if b.is_empty() || !libc::WIFEXITED(st) || libc::WEXITSTATUS(st) != 0 {
            eprintln!("harness error: a worker ended with status {:x}", st);
            std::process::exit(2);
        }
        let mut pos = 0;
        let mut line = |b: &Vec<u8>| {
            let e = pos + b[pos..].iter().position(|c| *c == b'\n').unwrap();
            let s = String::from_utf8(b[pos..e].to_vec()).unwrap();
            pos = e + 1;
            s
        };
        let h: Vec<i64> = line(&b).split(' ').map(|x| x.parse().unwrap()).collect();
        t.runs += h[0] as u64;
        t.steps += h[1] as u64;
        t.simtime += h[2] as u64;
        t.nontrivial += h[3] as u64;
        if h[4] >= 0 {
            t.fail = Some(t.fail.map(|x| x.min(h[4] as u64)).unwrap_or(h[4] as u64));
        }
        let n: usize = line(&b).parse().unwrap();
        for _ in 0..n {
            let l = line(&b);
            let (a, c) = l.rsplit_once(' ').unwrap();
            *t.stats.entry(a.to_string()).or_insert(0) += c.parse::<u64>().unwrap();
        }
        let n: usize = line(&b).parse().unwrap();
        for i in 0..n {
            let o = pos + i * 8;
            t.hashes.insert(u64::from_le_bytes(b[o..o + 8].try_into().unwrap()));
        }
    }
    t
}

fn nworkers() -> u64 {
    std::env::var("KSIM_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(8)
}

struct Known {
    property: String,
    case: String,
    what: String,
}

fn known(root: &str) -> Vec<Known> {
    let s = match std::fs::read_to_string(format!("{}/known_findings.json", root)) {
        Ok(s) => s,
        Err(_) => return vec![],
    };
    let j = match json::parse(&s) {
        Some(j) => j,
        None => {
            eprintln!("harness error: known_findings.json does not parse");
            std::process::exit(2)
        }
    };
    let mut v = vec![];
    for f in j.get("open").map(|x| x.arr()).unwrap_or(&[]) {
        v.push(Known {
            property: f.get("property").unwrap().str().into(),
            case: f.get("case").unwrap().str().into(),
            what: f.get("what").unwrap().str().into(),
        });
    }
    v
}

fn check(args: &[String]) -> i32 {
    let id = arg(args, "--prop").unwrap();
    let root = arg(args, "--root").unwrap_or("/verif".into());
    let tier = arg(args, "--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let seed: u64 = arg(args, "--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let p = find(&id);
    let mut total = if tier == "quick" { p.quick } else { p.thorough };
    if let Some(n) = arg(args, "--runs").and_then(|s| s.parse().ok()) {
        total = n;
    }
    let start = Instant::now();
    println!("property={} tier={} seed={} runs={}", id, tier, seed, total);

    // known findings: directed cases which are listed as open do not count as violations
    let mut skip = BTreeSet::new();
    let mut known_hit = 0;
    for kf in known(&root).iter().filter(|f| f.property == id) {
        if let Some(i) = p.directed.iter().position(|d| d.0 == kf.case) {
            skip.insert(i as u64);
            let (b, s) = body_of(p, seed, i as u64);
            let o = exec(b, s, false);
            match o.viol {
                Some(ref v) if v.class == "harness" => {
                    eprintln!("harness error: {}", v.msg);
                    return 2;
                }
                Some(_) => {
                    known_hit += 1;
                    println!("KNOWN-FINDING: property={} {}", id, kf.what)
                }
                None => println!("note: the listed finding '{}' no longer shows", kf.case),
            }
        }
    }

    let t = explore(p, seed, total, nworkers(), &skip);
    let explore_s = start.elapsed().as_secs_f64();

    // determinism: a sample again, one process, other order
    let mut mism = 0;
    let mut redone = 0;
    if t.fail.is_none() {
        let n = if tier == "quick" { 96 } else { 1000 };
        let step = (total / n).max(1);
        let mut i = total - 1;
        loop {
            let (b, s) = body_of(p, seed, i);
            let a = exec(b, s, false);
            let c = exec(b, Source::Script(a.choices.clone()), false);
            redone += 1;
            if a.hash != c.hash || (a.nontrivial && !skip.contains(&i) && !t.hashes.contains(&a.hash)) {
                mism += 1;
            }
            if i < step {
                break;
            }
            i -= step;
        }
    }
    if mism > 0 {
        println!("note: {} of {} re-executed runs differ", mism, redone);
    }

    let mut violations = 0;
    let mut code = 0;
    let mut replay_path = String::new();
    if let Some(i) = t.fail {
        let (b, s) = body_of(p, seed, i);
        let mut o = exec(b, s, false);
        // state shared between runs is not expected; a run that depends on it is tried again
        for _ in 0..20 {
            if o.viol.is_some() {
                break;
            }
            o = exec(b, body_of(p, seed, i).1, false)
        }
        let v = match o.viol.clone() {
            Some(v) => v,
            None => Viol { class: "unreproduced".into(), msg: format!("run {} failed in its worker but not when repeated", i) },
        };
        if v.class == "harness" || v.class == "unreproduced" {
            eprintln!("harness error: {} in run {}", v.msg, i);
            return 2;
        }
        println!("run {}: {}: {}", i, v.class, v.msg);
        let (best, trials) = if std::env::var_os("KSIM_NOSHRINK").is_some() { (o.choices.clone(), 0) } else { shrink::shrink(b, o, tier == "quick") };
        let fin = exec(b, Source::Script(best.clone()), true);
        let fv = fin.viol.clone().unwrap_or(v.clone());
        let body = if i < p.directed.len() as u64 { p.directed[i as usize].0 } else { "random" };
        replay_path = write_replay(&root, &id, seed, i, body, &fin, &fv);
        println!("minimised in {} trials from {} to {} choices: {}", trials, exec_len(b, p, seed, i), best.len(), fv.msg);
        // the replay file must reproduce in a fresh process
        let ok = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["replay", &replay_path, "--quiet"])
            .status()
            .map(|s| s.code() == Some(1))
            .unwrap_or(false);
        if !ok {
            println!("note: the replay file did not reproduce in a fresh process");
        }
        println!("VIOLATION property={} replay={}", id, replay_path);
        violations = 1;
        code = 1;
    }

    // samples, written out
    let mut samples = vec![];
    let mut i = p.directed.len() as u64;
    let mut tried = 0;
    while samples.len() < 3 && tried < 40 && i < total {
        let (b, s) = body_of(p, seed, i);
        let o = exec(b, s, true);
        if o.nontrivial {
            let ev: Vec<J> = o.log.lines().take(60).map(|l| J::s(util::clip(l, 160))).collect();
            samples.push(J::O(vec![
                ("run".into(), J::I(i as i64)),
                ("choices".into(), J::I(o.choices.len() as i64)),
                ("result".into(), J::s(o.viol.map(|v| v.class).unwrap_or("held".into()))),
                ("events".into(), J::A(ev)),
            ]));
        }
        i += 1;
        tried += 1;
    }

    let wall = start.elapsed().as_secs_f64();
    let pick = |pre: &str| -> J {
        J::map(&t.stats.iter().filter(|(n, _)| n.starts_with(pre)).map(|(n, v)| (n[pre.len()..].to_string(), *v)).collect())
    };
    let cov = J::O(vec![
        ("evaluations".into(), J::I(t.runs as i64)),
        ("distinct_nontrivial".into(), J::I(t.hashes.len() as i64)),
        ("rule".into(), J::s(format!("{} Non-trivial: {} Distinct: by the hash of the complete event log (operations, simulated system calls with results, faults, thread switches, log records).", p.how, p.nontrivial))),
        ("samples".into(), J::A(samples)),
        ("nontrivial_runs".into(), J::I(t.nontrivial as i64)),
        ("run_seeds_per_hour".into(), J::I((t.runs as f64 / explore_s.max(0.001) * 3600.0) as i64)),
        ("library_operations".into(), J::I(*t.stats.get("ops").unwrap_or(&0) as i64)),
        ("simulated_calls".into(), J::I(t.steps as i64)),
        ("simulated_time_s".into(), J::F(t.simtime as f64 / 1e9)),
        ("faults_fired".into(), pick("fault.")),
        ("scheduling".into(), pick("sched.")),
        ("probes".into(), pick("probe.")),
        ("directed_cases".into(), J::I(p.directed.len() as i64)),
        ("known_findings_shown".into(), J::I(known_hit)),
        ("determinism".into(), J::O(vec![
            ("runs_re_executed".into(), J::I(redone)),
            ("differing".into(), J::I(mism)),
        ])),
        ("real_components".into(), J::A(vec![J::s("kicad_parse_gen from /repo's working tree, unmodified"), J::s("symbolic_expressions, shellexpand, log, Rust std")])),
        ("stub_components".into(), J::A(vec![J::s("file system, descriptors, clock, entropy, futexes and thread scheduling (simulated kernel)"), J::s("log sink")])),
    ]);
    let ev = J::O(vec![
        ("property".into(), J::s(id.clone())),
        ("tier".into(), J::s(tier)),
        ("seed".into(), J::I(seed as i64)),
        ("level".into(), J::s("exploration")),
        ("coverage".into(), cov),
        ("assumptions".into(), J::A(p.assumptions.iter().map(|s| J::s(*s)).collect())),
        ("wall_s".into(), J::F(wall)),
        ("violations".into(), J::I(violations)),
    ]);
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", root, id), ev.pretty()) {
        eprintln!("harness error: cannot write the evidence file: {}", e);
        return 2;
    }
    println!(
        "{} runs, {} distinct non-trivial, {} operations, {:.1} s{}",
        t.runs, t.hashes.len(), t.stats.get("ops").unwrap_or(&0), wall,
        if replay_path.is_empty() { "" } else { ", VIOLATED" }
    );
    code
}

fn exec_len(b: fn() -> run::R, p: &'static Prop, seed: u64, i: u64) -> usize {
    let (_, s) = body_of(p, seed, i);
    exec(b, s, false).choices.len()
}

fn write_replay(root: &str, id: &str, seed: u64, index: u64, body: &str, o: &Outcome, v: &Viol) -> String {
    let _ = std::fs::create_dir_all(format!("{}/replays", root));
    let path = format!("{}/replays/{}-{}-{}.json", root, id, seed, index);
    let j = J::O(vec![
        ("property".into(), J::s(id)),
        ("seed".into(), J::I(seed as i64)),
        ("run".into(), J::I(index as i64)),
        ("body".into(), J::s(body)),
        ("class".into(), J::s(v.class.clone())),
        ("message".into(), J::s(v.msg.clone())),
        ("log_hash".into(), J::s(format!("{:016x}", o.hash))),
        ("choices".into(), J::A(o.choices.iter().map(|c| J::I(*c as i64)).collect())),
        ("event_log".into(), J::A(o.log.lines().take(2000).map(|l| J::s(util::clip(l, 400))).collect())),
    ]);
    if let Err(e) = std::fs::write(&path, j.pretty()) {
        eprintln!("harness error: cannot write {}: {}", path, e);
        std::process::exit(2);
    }
    path
}

fn replay(args: &[String]) -> i32 {
    let quiet = args.iter().any(|a| a == "--quiet");
    let s = match std::fs::read_to_string(&args[2]) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let j = json::parse(&s).expect("replay file");
    let p = find(j.get("property").unwrap().str());
    let body = j.get("body").unwrap().str();
    let b = p.directed.iter().find(|d| d.0 == body).map(|d| d.1).unwrap_or(p.run);
    let ch: Vec<u32> = j.get("choices").unwrap().arr().iter().map(|x| x.int() as u32).collect();
    let o = exec(b, Source::Script(ch), true);
    let same = format!("{:016x}", o.hash) == j.get("log_hash").unwrap().str();
    if !quiet {
        print!("{}", o.log);
    }
    match o.viol {
        Some(v) => {
            if !quiet {
                println!("{}: {}", v.class, v.msg);
                println!("event log {}", if same { "identical to the recorded one" } else { "DIFFERS from the recorded one" });
                println!("VIOLATION property={} replay={}", p.id, args[2]);
            }
            if v.class == j.get("class").unwrap().str() && same {
                1
            } else {
                3
            }
        }
        None => {
            println!("not reproduced");
            0
        }
    }
}

fn trace(args: &[String]) -> i32 {
    let p = find(&arg(args, "--prop").unwrap());
    let seed: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let i: u64 = arg(args, "--index").and_then(|s| s.parse().ok()).unwrap_or(0);
    let (b, s) = body_of(p, seed, i);
    let o = exec(b, s, true);
    print!("{}", o.log);
    println!("hash {:016x} steps {} choices {} nontrivial {}", o.hash, o.steps, o.choices.len(), o.nontrivial);
    for (n, v) in &o.stats {
        println!("  {} {}", n, v);
    }
    if let Some(v) = o.viol {
        println!("{}: {}", v.class, v.msg);
        return 1;
    }
    0
}

/// print the event log hash of every run (to be compared between processes and worker counts)
fn det(args: &[String]) -> i32 {
    let p = find(&arg(args, "--prop").unwrap());
    let seed: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let n: u64 = arg(args, "--runs").and_then(|s| s.parse().ok()).unwrap_or(100);
    let from: u64 = arg(args, "--from").and_then(|s| s.parse().ok()).unwrap_or(0);
    let rev = args.iter().any(|a| a == "--reverse");
    let mut out: Vec<String> = vec![];
    let idx: Vec<u64> = if rev { (from..from + n).rev().collect() } else { (from..from + n).collect() };
    for i in idx {
        let (b, s) = body_of(p, seed, i);
        let o = exec(b, s, false);
        out.push(format!("{} {} {:016x} {} {}", p.id, i, o.hash, o.steps, o.viol.map(|v| v.class).unwrap_or("ok".into())));
    }
    if rev {
        out.reverse();
    }
    let so = std::io::stdout();
    let mut l = so.lock();
    for x in out {
        let _ = writeln!(l, "{}", x);
    }
    0
}

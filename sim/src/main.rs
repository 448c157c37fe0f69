//! Deterministic simulation of html5-fuser. See /verif/DESIGN.md.
//!
//! sim check <ID> <tier>        run a check (as /verif/check.sh does)
//! sim replay <file>            replay a violation
//! sim hashes <ID> <seed> <n>   one line per run with everything it decided (determinism test)
//! sim show <ID> <seed> <i>     trace of one run

mod alloc;
mod dict;
mod disk;
mod gen;
mod json;
mod load;
mod model;
mod prog;
mod props;
mod scale;
mod sched;
mod sys;
mod tape;
mod trans;
mod known;

use json::J;
use sched::Violation;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, ExitCode, Stdio};
use std::time::{Duration, Instant};
use tape::Tape;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

thread_local! { static PANIC: RefCell<Option<String>> = const { RefCell::new(None) }; }

const WORKERS: u64 = 8;
const CPU_SECS: i64 = 30;
const STACK: usize = 16 << 20;

pub struct RunOut { pub viol: Option<Violation>, pub sim: sched::SimState, pub gen: Vec<u32>, pub harness: Option<String> }

fn run_once(prop: &str, mut gen: Tape, schedule: Tape, trace: bool) -> RunOut {
    PANIC.with(|p| *p.borrow_mut() = None);
    sched::begin(schedule, trace);
    disk::begin();
    if matches!(prop, "C01" | "C02" | "C03" | "C05") {
        disk::sizes(match gen.weighted(&[6, 1, 1]) { 0 => disk::Sizes::Exact, 1 => disk::Sizes::Zero, _ => disk::Sizes::Less });
    }
    if gen.chance(1, 3) { disk::read_only(); }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::scenario(prop, &mut gen)));
    let left = disk::end();
    let mut sim = sched::end();
    let mut harness = None;
    let viol = match r {
        Ok(Ok(())) if prop == "C02" && left.handles > 0 => Some(Violation { class: "handle-not-released".into(),
            detail: format!("{} handles of files that were loaded are still open at the end", left.handles) }),
        Ok(Ok(())) if prop == "C02" && !left.files.is_empty() => Some(Violation { class: "file-left-behind".into(),
            detail: format!("loading has left files behind: {:?}", left.files) }),
        Ok(Ok(())) => None,
        Ok(Err(v)) => Some(v),
        Err(p) => {
            if p.is::<sched::StepCap>() && !sim.bounded {
                *sim.probes.entry("shared_plan_too_big").or_insert(0) += 1;
                None
            } else if p.is::<sched::StepCap>() {
                Some(Violation { class: "no-progress".into(), detail: format!("no end after {} steps", sim.step_cap) })
            } else {
                let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into());
                if m.contains("harness:") { harness = Some(m.clone()); }
                Some(Violation { class: "panic".into(), detail: m })
            }
        }
    };
    RunOut { viol, sim, gen: gen.vals, harness }
}

fn fresh(prop: &str, seed: u64, index: u64, trace: bool) -> RunOut {
    let s = tape::run_seed(seed, prop, index);
    run_once(prop, Tape::fresh(s), Tape::fresh(s ^ 0x5ced_0000_0000_0001), trace)
}

fn replay(prop: &str, gen: &[u32], sched: &[u32], trace: bool) -> RunOut {
    run_once(prop, Tape::replay(gen.to_vec()), Tape::replay(sched.to_vec()), trace)
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        if std::env::var_os("SIM_PANICS").is_some() { eprintln!("{}", info); }
        if info.payload().is::<sched::StepCap>() { return; }
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into());
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| { let mut p = p.borrow_mut(); if p.is_none() { *p = Some(format!("{} at {}", msg, at)); } });
    }));
}

fn on_big_stack<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R {
    match std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join() { Ok(r) => r, Err(_) => std::process::exit(2) }
}

fn hex(s: &str) -> String { s.bytes().map(|b| format!("{:02x}", b)).collect() }
fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect();
    String::from_utf8_lossy(&b).into_owned()
}
fn nums(v: &[u32]) -> String { v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") }
fn parse_nums(s: &str) -> Vec<u32> { s.split(',').filter_map(|x| x.parse().ok()).collect() }

// ---------------------------------------------------------------------------------------------
// Children

fn worker(a: &[String]) {
    use std::os::unix::fs::FileExt;
    let (prop, seed, w, n, deadline) = (a[0].clone(), num(&a[1]), num(&a[2]), num(&a[3]), num(&a[4]));
    let (progress, hashes) = (PathBuf::from(&a[5]), PathBuf::from(&a[6]));
    sys::memory_fence(6 << 30);
    on_big_stack(move || {
        let start = Instant::now();
        let f = std::fs::File::create(&progress).expect("progress file");
        let mut stats: BTreeMap<String, u64> = BTreeMap::new();
        let mut seen: Vec<u64> = Vec::new();
        let mut out = std::io::stdout();
        let mut index = w;
        let mut samples = 0;
        let slow = std::env::var_os("SIM_SLOW").is_some();
        while index < n {
            f.write_at(&(index + 1).to_le_bytes(), 0).expect("progress");
            sys::cpu_fence(CPU_SECS);
            let want_sample = w == 0 && samples < 4;
            let begun = Instant::now();
            let r = fresh(&prop, seed, index, want_sample);
            sys::cpu_fence(0);
            if slow && begun.elapsed() > Duration::from_millis(1500) { eprintln!("run {} took {:?}", index, begun.elapsed()); }
            let mut add = |k: &str, v: u64| *stats.entry(k.to_string()).or_insert(0) += v;
            add("runs", 1);
            add("steps", r.sim.steps);
            add("switches", r.sim.switches);
            if r.sim.switches > 0 { add("runs_with_interleaving", 1); }
            if r.sim.faults.values().sum::<u64>() > 0 { add("runs_with_faults", 1); }
            for (k, v) in &r.sim.faults { add(&format!("fault.{}", k), *v); }
            for (k, v) in &r.sim.probes { add(&format!("probe.{}", k), *v); }
            if r.sim.steps > 0 || r.sim.state_hash != 0 {
                add("nontrivial", 1);
                seen.push(sched::mix(r.sim.hash, r.sim.state_hash));
            }
            if want_sample && (r.sim.steps > 2 || r.sim.state_hash != 0) {
                samples += 1;
                let t = r.sim.trace.clone().unwrap_or_default();
                let _ = writeln!(out, "SAMPLE {} {} {} {}", index, r.gen.len(), r.sim.steps, t.iter().take(25).map(|l| hex(l)).collect::<Vec<_>>().join(","));
            }
            if let Some(m) = r.harness { let _ = writeln!(out, "HARNESS {} {}", index, hex(&m)); break; }
            if let Some(v) = r.viol {
                let _ = writeln!(out, "V {} {} {}", index, v.class, hex(&disk::anonymous(&v.detail)));
                break;
            }
            index += WORKERS;
            if start.elapsed() > Duration::from_secs(deadline) { add("stopped_by_deadline", 1); break; }
        }
        seen.sort_unstable();
        seen.dedup();
        let bytes: Vec<u8> = seen.iter().flat_map(|h| h.to_le_bytes()).collect();
        std::fs::write(&hashes, bytes).expect("hashes");
        for (k, v) in stats { let _ = writeln!(out, "STAT {} {}", k, v); }
        let _ = writeln!(out, "END");
        disk::cleanup();
    });
}

/// Runs the given indices in order; reports on the last.
fn history(a: &[String]) {
    let (prop, seed) = (a[0].clone(), num(&a[1]));
    let list: Vec<u64> = a[2].split(',').filter_map(|x| x.parse().ok()).collect();
    sys::memory_fence(6 << 30);
    on_big_stack(move || {
        let last = list.len() - 1;
        for (i, index) in list.iter().enumerate() {
            sys::cpu_fence(CPU_SECS);
            let r = fresh(&prop, seed, *index, i == last);
            if i == last { report(&r) }
        }
        disk::cleanup();
    });
}

fn tape_run(a: &[String]) {
    let (prop, g, s) = (a[0].clone(), parse_nums(&a[1]), parse_nums(&a[2]));
    sys::memory_fence(6 << 30);
    on_big_stack(move || {
        sys::cpu_fence(CPU_SECS);
        let r = replay(&prop, &g, &s, true);
        report(&r);
        disk::cleanup();
    });
}

fn report(r: &RunOut) {
    for l in r.sim.trace.iter().flatten() { println!("T {}", hex(&disk::anonymous(l))); }
    println!("TAPES {} {}", nums(&r.gen), nums(&r.sim.sched.vals));
    match r.viol {
        Some(ref v) => println!("V 0 {} {}", v.class, hex(&disk::anonymous(&v.detail))),
        None => println!("OK"),
    }
}

/// Shrinks both tapes while the violation class stays; prints each improvement.
fn shrink(a: &[String]) {
    let (prop, g, s, class, secs) = (a[0].clone(), parse_nums(&a[1]), parse_nums(&a[2]), a[3].clone(), num(&a[4]));
    sys::memory_fence(6 << 30);
    on_big_stack(move || {
        let start = Instant::now();
        let mut best = [g, s];
        let mut tries = 0u64;
        let try_it = |c: &[Vec<u32>; 2], tries: &mut u64| -> bool {
            *tries += 1;
            sys::cpu_fence(CPU_SECS);
            let r = replay(&prop, &c[0], &c[1], false);
            sys::cpu_fence(0);
            r.viol.map_or(false, |v| v.class == class)
        };
        let over = || start.elapsed() > Duration::from_secs(secs);
        let emit = |b: &[Vec<u32>; 2]| { println!("BEST {} {}", nums(&b[0]), nums(&b[1])); let _ = std::io::stdout().flush(); };
        // Schedule first: often nothing of it matters.
        for k in [1, 0] {
            let mut c = best.clone();
            c[k].clear();
            if try_it(&c, &mut tries) { best = c; emit(&best); }
        }
        loop {
            let before = best.clone();
            for k in [0, 1] {
                // Shorter prefixes.
                let mut lo = 0;
                let mut hi = best[k].len();
                while lo < hi && !over() {
                    let mid = (lo + hi) / 2;
                    let mut c = best.clone();
                    c[k].truncate(mid);
                    if try_it(&c, &mut tries) { best = c; hi = mid; emit(&best); } else { lo = mid + 1; }
                }
                // Deletions.
                let mut size = (best[k].len() / 2).max(1).min(256);
                loop {
                    let mut i = best[k].len();
                    while i > 0 && !over() {
                        let a = i.saturating_sub(size);
                        let mut c = best.clone();
                        c[k].drain(a..i);
                        if try_it(&c, &mut tries) { best = c; emit(&best); }
                        i = a;
                        i = i.min(best[k].len());
                    }
                    if size == 1 { break; }
                    size /= 2;
                }
                // Smaller values.
                for i in 0..best[k].len() {
                    if over() { break; }
                    if i >= best[k].len() { break; }
                    let v = best[k][i];
                    for x in [0, 1, v / 2, v.saturating_sub(1)] {
                        if x >= best[k][i] { continue; }
                        let mut c = best.clone();
                        c[k][i] = x;
                        if try_it(&c, &mut tries) { best = c; emit(&best); break; }
                    }
                }
                while best[k].last() == Some(&0) { best[k].pop(); }
            }
            if best == before || over() { break; }
        }
        emit(&best);
        println!("TRIES {}", tries);
        disk::cleanup();
    });
}

fn hashes(a: &[String]) {
    let (prop, seed, n) = (a[0].clone(), num(&a[1]), num(&a[2]));
    let (off, stride) = (a.get(3).map_or(0, |x| num(x)), a.get(4).map_or(1, |x| num(x)));
    on_big_stack(move || {
        let mut i = off;
        while i < n {
            let r = fresh(&prop, seed, i, false);
            println!("{} {:016x} {:016x} {} {} {} {:?} {:?} {:?}", i, r.sim.hash, r.sim.state_hash, r.sim.steps, r.gen.len(), r.sim.sched.vals.len(),
                r.sim.faults, r.sim.probes, r.viol);
            i += stride;
        }
        disk::cleanup();
    });
}

fn show(a: &[String]) {
    let (prop, seed, i) = (a[0].clone(), num(&a[1]), num(&a[2]));
    on_big_stack(move || {
        let r = fresh(&prop, seed, i, true);
        for l in r.sim.trace.iter().flatten() { println!("{}", l); }
        println!("{:?} {:?} {:?}", r.sim.faults, r.sim.probes, r.viol);
        disk::cleanup();
    });
}

// ---------------------------------------------------------------------------------------------
// The parent

fn num(s: &str) -> u64 { s.parse().unwrap_or_else(|_| { eprintln!("not a number: {}", s); std::process::exit(2) }) }

fn child(args: &[String], stdout: Stdio) -> Command {
    use std::os::unix::process::CommandExt;
    let mut c = Command::new(std::env::current_exe().expect("own path"));
    c.args(args).stdin(Stdio::null()).stdout(stdout);
    if std::env::var_os("SIM_DEBUG").is_none() { c.stderr(Stdio::null()); }
    unsafe { c.pre_exec(|| { sys::fixed_addresses(); Ok(()) }); }
    c
}

struct ChildOut { lines: Vec<String>, died: Option<String> }

fn died(st: std::process::ExitStatus) -> Option<String> {
    use std::os::unix::process::ExitStatusExt;
    match st.signal() {
        None => if st.success() { None } else { Some(format!("exit-{}", st.code().unwrap_or(-1))) },
        Some(27) => Some("hang".into()),
        Some(11) | Some(7) => Some("crash".into()),
        Some(6) => Some("abort".into()),
        Some(9) => Some("killed".into()),
        Some(s) => Some(format!("signal-{}", s)),
    }
}

fn run_child(args: &[String]) -> ChildOut {
    let c = child(args, Stdio::piped()).spawn().expect("child");
    let pid = c.id();
    let out = c.wait_with_output().expect("child");
    disk::cleanup_of(pid);
    ChildOut {
        lines: String::from_utf8_lossy(&out.stdout).lines().map(|l| l.to_string()).collect(),
        died: died(out.status),
    }
}

fn args(v: &[&str]) -> Vec<String> { v.iter().map(|s| s.to_string()).collect() }

fn verdict(c: &ChildOut) -> Option<(String, String)> {
    for l in &c.lines {
        if let Some(rest) = l.strip_prefix("V ") {
            let p: Vec<&str> = rest.splitn(3, ' ').collect();
            return Some((p[1].to_string(), unhex(p.get(2).unwrap_or(&""))));
        }
    }
    match c.died.as_deref() {
        Some("hang") => Some(("hang".into(), format!("one simulated run used more than {} s of CPU time without ending", CPU_SECS))),
        Some("crash") => Some(("crash".into(), "the process was killed by a memory fault (stack overflow)".into())),
        Some("abort") => Some(("abort".into(), "the process aborted (panic while unwinding, or out of memory)".into())),
        _ => None,
    }
}

struct Found { index: u64, class: String, detail: String }

struct Batch {
    stats: BTreeMap<String, u64>,
    distinct: u64,
    samples: Vec<J>,
    found: Option<Found>,
    harness: Option<String>,
    wall: f64,
}

fn batch(prop: &str, seed: u64, n: u64, deadline: u64, scratch: &Path) -> Batch {
    let start = Instant::now();
    let mut children = Vec::new();
    for w in 0..WORKERS.min(n) {
        let p = scratch.join(format!("progress.{}", w));
        let h = scratch.join(format!("hashes.{}", w));
        let mut c = child(&[
            "worker".into(), prop.into(), seed.to_string(), w.to_string(), n.to_string(), deadline.to_string(),
            p.display().to_string(), h.display().to_string(),
        ], Stdio::piped()).spawn().expect("worker");
        let out = c.stdout.take().unwrap();
        let reader = std::thread::spawn(move || std::io::BufReader::new(out).lines().map_while(Result::ok).collect::<Vec<_>>());
        children.push((c, reader, p, h));
    }
    let mut b = Batch { stats: BTreeMap::new(), distinct: 0, samples: vec![], found: None, harness: None, wall: 0.0 };
    let mut hashes: Vec<u64> = Vec::new();
    for (mut c, reader, p, h) in children {
        let st = c.wait().expect("worker");
        disk::cleanup_of(c.id());
        let lines = reader.join().unwrap_or_default();
        let mut ended = false;
        for l in &lines {
            let f: Vec<&str> = l.split(' ').collect();
            match f[0] {
                "STAT" => *b.stats.entry(f[1].to_string()).or_insert(0) += num(f[2]),
                "SAMPLE" => b.samples.push(J::Obj(vec![
                    ("run".into(), J::Int(num(f[1]) as i64)),
                    ("choices".into(), J::Int(num(f[2]) as i64)),
                    ("steps".into(), J::Int(num(f[3]) as i64)),
                    ("trace".into(), J::Arr(f.get(4).map_or(vec![], |t| t.split(',').filter(|x| !x.is_empty()).map(|x| J::s(unhex(x))).collect()))),
                ])),
                "HARNESS" => b.harness = Some(format!("run {}: {}", f[1], unhex(f[2]))),
                "V" => {
                    let index = num(f[1]);
                    if b.found.as_ref().map_or(true, |x| index < x.index) {
                        b.found = Some(Found { index, class: f[2].into(), detail: unhex(f.get(3).unwrap_or(&"")) });
                    }
                }
                "END" => ended = true,
                _ => (),
            }
        }
        let d = died(st);
        if !ended || d.is_some() {
            let index = std::fs::read(&p).ok().filter(|x| x.len() >= 8).map_or(0, |x| u64::from_le_bytes(x[..8].try_into().unwrap()));
            match d.as_deref() {
                Some(k @ ("hang" | "crash" | "abort")) if index > 0 => {
                    if b.found.as_ref().map_or(true, |x| index - 1 < x.index) {
                        b.found = Some(Found { index: index - 1, class: k.into(), detail: String::new() });
                    }
                }
                other => b.harness = Some(format!("a worker ended with {:?} at run {:?}", other, index.checked_sub(1))),
            }
        }
        if let Ok(bytes) = std::fs::read(&h) {
            hashes.extend(bytes.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
    }
    hashes.sort_unstable();
    hashes.dedup();
    b.distinct = hashes.len() as u64;
    b.wall = start.elapsed().as_secs_f64();
    b
}

fn tapes_of(c: &ChildOut) -> Option<(Vec<u32>, Vec<u32>)> {
    c.lines.iter().rev().find_map(|l| l.strip_prefix("TAPES ").or_else(|| l.strip_prefix("BEST ")).map(|r| {
        let (a, b) = r.split_once(' ').unwrap_or((r, ""));
        (parse_nums(a), parse_nums(b))
    }))
}

fn trace_of(c: &ChildOut) -> J {
    J::Arr(c.lines.iter().filter_map(|l| l.strip_prefix("T ")).map(|l| J::s(unhex(l))).collect())
}

/// Confirms, minimises and writes the replay file.
fn write_replay(dir: &Path, prop: &str, seed: u64, f: &Found) -> (PathBuf, String, String) {
    let seed_s = seed.to_string();
    let one = run_child(&args(&["history", prop, &seed_s, &f.index.to_string()]));
    let path = dir.join(format!("{}-{}-{}.json", prop, seed, f.index));
    let mut fields = vec![
        ("property".to_string(), J::s(prop)),
        ("seed".into(), J::Int(seed as i64)),
        ("run".into(), J::Int(f.index as i64)),
        ("dictionary".into(), J::s(dict::get().encode())),
        ("replay_with".into(), J::s(format!("sim/target/release/sim replay {}", path.display()))),
    ];
    let mut class = f.class.clone();
    let mut detail = f.detail.clone();
    let single = verdict(&one);
    if let Some((c, d)) = single {
        class = c;
        detail = d;
        let dead = matches!(&class[..], "hang" | "crash" | "abort");
        // A dead process prints no tapes: draw them again, up to the point of death.
        let orig = tapes_of(&one);
        let mut done = false;
        if let Some((g, s)) = orig {
            let sh = run_child(&args(&["shrink", prop, &nums(&g), &nums(&s), &class, "40"]));
            let mut candidates = vec![];
            if let Some(b) = tapes_of(&sh) { candidates.push((b, true)); }
            candidates.push(((g, s), false));
            for ((g, s), min) in candidates {
                let again = run_child(&args(&["tape", prop, &nums(&g), &nums(&s)]));
                if let Some((c, d)) = verdict(&again) {
                    if c != class { continue; }
                    detail = d;
                    fields.push(("kind".into(), J::s("tape")));
                    fields.push(("minimised".into(), J::Bool(min)));
                    fields.push(("choices".into(), J::Arr(g.iter().map(|x| J::Int(*x as i64)).collect())));
                    fields.push(("schedule".into(), J::Arr(s.iter().map(|x| J::Int(*x as i64)).collect())));
                    fields.push(("trace".into(), trace_of(&again)));
                    done = true;
                    break;
                }
            }
        }
        if !done {
            fields.push(("kind".into(), J::s("history")));
            fields.push(("history".into(), J::Arr(vec![J::Int(f.index as i64)])));
            fields.push(("note".into(), J::s(if dead { "the run ends the process, so it is replayed from its seed" } else { "replayed from its seed" })));
        }
    } else {
        // It takes the runs before it: some state outlives a run.
        let all: Vec<u64> = (f.index % WORKERS..=f.index).step_by(WORKERS as usize).collect();
        let ask = |l: &[u64]| {
            let c = run_child(&args(&["history", prop, &seed_s, &l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")]));
            let v = verdict(&c);
            v.map(|v| (v, trace_of(&c)))
        };
        let start = Instant::now();
        let mut best: Option<(Vec<u64>, ((String, String), J))> = None;
        let mut k = 2;
        while k < all.len() && best.is_none() && start.elapsed() < Duration::from_secs(60) {
            let l = &all[all.len() - k..];
            if let Some(v) = ask(l) { best = Some((l.to_vec(), v)); }
            k *= 2;
        }
        if best.is_none() && all.len() > 1 { if let Some(v) = ask(&all) { best = Some((all.clone(), v)); } }
        match best {
            Some((mut l, mut v)) => {
                // Drop runs that are not needed.
                let mut size = (l.len() / 2).max(1);
                loop {
                    let mut i = 0;
                    while i + 1 < l.len() && start.elapsed() < Duration::from_secs(120) {
                        let z = (i + size).min(l.len() - 1);
                        let mut c = l.clone();
                        c.drain(i..z);
                        match ask(&c) { Some(x) if x.0.0 == v.0.0 => { l = c; v = x; } _ => i = z }
                    }
                    if size == 1 || start.elapsed() >= Duration::from_secs(120) { break; }
                    size /= 2;
                }
                class = v.0.0.clone();
                detail = v.0.1.clone();
                fields.push(("kind".into(), J::s("history")));
                fields.push(("history".into(), J::Arr(l.iter().map(|x| J::Int(*x as i64)).collect())));
                fields.push(("trace".into(), v.1));
                fields.push(("note".into(), J::s("needs the listed runs one after another in one process: state outlives a run")));
            }
            None => {
                fields.push(("kind".into(), J::s("history")));
                fields.push(("history".into(), J::Arr(all.iter().map(|x| J::Int(*x as i64)).collect())));
                fields.push(("note".into(), J::s("seen once, did not show again when replayed: something outside the simulator's control decides it")));
            }
        }
    }
    fields.push(("class".into(), J::s(&class[..])));
    fields.push(("detail".into(), J::s(&detail[..])));
    std::fs::create_dir_all(dir).expect("replay dir");
    std::fs::write(&path, J::Obj(fields).text()).expect("replay file");
    (path, class, detail)
}

fn sub(m: &BTreeMap<String, u64>, prefix: &str) -> J {
    J::Obj(m.iter().filter_map(|(k, v)| k.strip_prefix(prefix).map(|k| (k.to_string(), J::Int(*v as i64)))).collect())
}

fn check(a: &[String]) -> ExitCode {
    let start = Instant::now();
    let prop = a[0].clone();
    if !props::ALL.contains(&&prop[..]) { eprintln!("unknown property {}", prop); return ExitCode::from(2); }
    let root = PathBuf::from(a.get(2).cloned().unwrap_or_else(|| "/verif".into()));
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = a.get(1).cloned().unwrap_or_else(|| "quick".into());
    dict::harvest().publish();
    let (q, th) = props::runs(&prop);
    let (n, deadline) = if tier == "thorough" { (th, 780) } else { (q, 600) };
    let n = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(n);
    println!("property={} tier={} seed={} runs={}", prop, tier, seed, n);
    let scratch = std::env::temp_dir().join(format!("html5sim-parent.{}", std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch");
    let b = batch(&prop, seed, n, deadline, &scratch);
    let _ = std::fs::remove_dir_all(&scratch);
    let mut violations = 0;
    let mut code = 0;
    let replays = root.join("replays");
    // Fixed probes for the findings on record.
    let mut findings = Vec::new();
    match known::probes(&prop, &root) {
        Ok(list) => for p in list {
            if !p.fails { continue; }
            if p.listed {
                println!("KNOWN-FINDING: property={} {}", prop, p.what);
                findings.push(J::s(p.what.clone()));
            } else {
                let path = replays.join(format!("{}-probe-{}.json", prop, p.id));
                std::fs::create_dir_all(&replays).expect("replay dir");
                std::fs::write(&path, J::Obj(vec![
                    ("property".into(), J::s(&prop[..])), ("kind".into(), J::s("probe")), ("probe".into(), J::s(p.id)), ("detail".into(), J::s(p.what.clone())),
                ]).text()).expect("replay");
                println!("VIOLATION property={} replay={}", prop, path.display());
                violations += 1;
                code = 1;
            }
        },
        Err(e) => { eprintln!("harness: {}", e); code = 2; }
    }
    if let Some(ref f) = b.found {
        let (path, class, detail) = write_replay(&replays, &prop, seed, f);
        println!("run {} of seed {}: {}: {}", f.index, seed, class, detail);
        println!("VIOLATION property={} replay={}", prop, path.display());
        violations += 1;
        code = 1;
    } else if let Some(ref h) = b.harness {
        eprintln!("harness error: {}", h);
        code = 2;
    }
    let runs = b.stats.get("runs").copied().unwrap_or(0);
    let steps = b.stats.get("steps").copied().unwrap_or(0);
    let per_hour = (runs as f64 / b.wall.max(0.001) * 3600.0) as i64;
    let g = |k: &str| J::Int(b.stats.get(k).copied().unwrap_or(0) as i64);
    let cov = J::Obj(vec![
        ("evaluations".into(), J::Int(runs as i64)),
        ("distinct_nontrivial".into(), J::Int(b.distinct as i64)),
        ("rule".into(), J::s("One case is one simulated run: workload, faults and schedule drawn from the seed and the run number. It is non-trivial if at least one call crossed a seam (disk, sink, user-supplied part) or a result was judged; two runs are distinct if the hash over their sequence of seam crossings (who, what, in which order) and the results observed differs.")),
        ("nontrivial_runs".into(), g("nontrivial")),
        ("samples".into(), J::Arr(b.samples.clone())),
        ("runs_per_hour".into(), J::Int(per_hour)),
        ("seeds_per_hour".into(), J::Int(per_hour)),
        ("simulated_steps".into(), J::Int(steps as i64)),
        ("simulated_time_s".into(), J::Num(steps as f64 / 1000.0)),
        ("simulated_time_note".into(), J::s("the code has no timers; the simulated clock advances one millisecond per seam crossing")),
        ("runs_with_faults".into(), g("runs_with_faults")),
        ("faults_injected".into(), sub(&b.stats, "fault.")),
        ("runs_with_interleaving".into(), g("runs_with_interleaving")),
        ("client_switches".into(), g("switches")),
        ("distinct_interleavings_or_states".into(), J::Int(b.distinct as i64)),
        ("probes".into(), sub(&b.stats, "probe.")),
        ("stopped_by_deadline".into(), J::Bool(b.stats.contains_key("stopped_by_deadline"))),
        ("real_components".into(), J::s("all of html5-fuser, unmodified, with debug assertions; the standard library's file and formatting layers")),
        ("stub_components".into(), J::s("open/read/close of the C library (simulated disk), output sinks, content streams, iterators, selectors and builder closures of the simulated clients, the client scheduler, process randomness and clocks")),
        ("known_findings".into(), J::Arr(findings)),
    ]);
    let ev = J::Obj(vec![
        ("property".into(), J::s(&prop[..])),
        ("tier".into(), J::s(if tier == "thorough" { "thorough" } else { "quick" })),
        ("seed".into(), J::Int(seed as i64)),
        ("level".into(), J::s("exploration")),
        ("coverage".into(), cov),
        ("assumptions".into(), J::Arr(vec![
            J::s("sampled runs: no violation found is evidence, not proof"),
            J::s("the reference model (sim/src/model.rs, the model half of prog.rs) states the intended behaviour"),
            J::s("clients interleave at the library's calls into user code and the operating system; the types are not Sync, so there are no other interleavings"),
        ])),
        ("wall_s".into(), J::Num(start.elapsed().as_secs_f64())),
        ("violations".into(), J::Int(violations)),
    ]);
    let dir = root.join("evidence");
    std::fs::create_dir_all(&dir).expect("evidence dir");
    std::fs::write(dir.join(format!("{}.json", prop)), ev.text()).expect("evidence");
    println!("property={} runs={} distinct={} steps={} wall={:.1}s exit={}", prop, runs, b.distinct, steps, start.elapsed().as_secs_f64(), code);
    ExitCode::from(code)
}

fn replay_file(a: &[String]) -> ExitCode {
    let text = match std::fs::read_to_string(&a[0]) { Ok(t) => t, Err(e) => { eprintln!("{}: {}", a[0], e); return ExitCode::from(2) } };
    let j = match json::parse(&text) { Some(j) => j, None => { eprintln!("not a replay file"); return ExitCode::from(2) } };
    let s = |k: &str| j.get(k).and_then(|x| x.str()).unwrap_or("").to_string();
    let prop = s("property");
    dict::Dict::decode(&s("dictionary")).publish();
    let list = |k: &str| j.get(k).map_or(vec![], |x| x.ints()).iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let seed = j.get("seed").and_then(|x| x.int()).unwrap_or(1).to_string();
    let c = match &s("kind")[..] {
        "tape" => run_child(&args(&["tape", &prop, &list("choices"), &list("schedule")])),
        "history" => run_child(&args(&["history", &prop, &seed, &list("history")])),
        "probe" => {
            let bad = known::run_probe(&s("probe"));
            return match bad {
                Some(true) => { println!("VIOLATION property={} replay={}", prop, a[0]); ExitCode::from(1) }
                Some(false) => { println!("not reproduced"); ExitCode::SUCCESS }
                None => ExitCode::from(2),
            };
        }
        k => { eprintln!("unknown kind {:?}", k); return ExitCode::from(2) }
    };
    for l in &c.lines { if let Some(t) = l.strip_prefix("T ") { println!("{}", unhex(t)); } }
    match verdict(&c) {
        Some((class, detail)) => {
            println!("{}: {}", class, detail);
            if class != s("class") { println!("(recorded class: {})", s("class")); }
            println!("VIOLATION property={} replay={}", prop, a[0]);
            ExitCode::from(1)
        }
        None => { println!("not reproduced"); ExitCode::SUCCESS }
    }
}

fn main() -> ExitCode {
    let a: Vec<String> = std::env::args().skip(1).collect();
    install_hook();
    let rest = a.get(1..).unwrap_or(&[]);
    match a.first().map(|s| &s[..]) {
        Some("check") if !rest.is_empty() => check(rest),
        Some("replay") if !rest.is_empty() => replay_file(rest),
        Some("worker") => { worker(rest); ExitCode::SUCCESS }
        Some("history") => { history(rest); ExitCode::SUCCESS }
        Some("tape") => { tape_run(rest); ExitCode::SUCCESS }
        Some("shrink") => { shrink(rest); ExitCode::SUCCESS }
        Some("hashes") => { hashes(rest); ExitCode::SUCCESS }
        Some("dictionary") => { print!("{}", dict::base_text()); ExitCode::SUCCESS }
        Some("show") => { show(rest); ExitCode::SUCCESS }
        _ => { eprintln!("usage: sim check <ID> <quick|thorough> [verif dir] | replay <file> | hashes <ID> <seed> <n> | show <ID> <seed> <run>"); ExitCode::from(2) }
    }
}

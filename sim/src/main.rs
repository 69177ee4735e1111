#![feature(alloc_error_hook, fn_traits, unboxed_closures)]
//! Deterministic simulation of value-bag under scheduling and faults.

mod alloc;
mod engine;
mod profile;
mod refm;
mod rt;
mod sink;
mod spec;

use std::collections::{BTreeMap, HashSet};
use std::io::{Seek, Write};
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

const CONFIG: &str = if cfg!(feature = "cfg-full") {
    "full"
} else if cfg!(feature = "cfg-inl") {
    "inl"
} else {
    "std"
};

fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    let mut h = rt::mix(seed, 0x5EED);
    for b in prop.bytes().chain(CONFIG.bytes()) {
        h = rt::mix(h, b as u64);
    }
    rt::mix(h, idx)
}

struct Args(BTreeMap<String, String>);

impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(|s| s.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).and_then(|s| s.parse().ok()).unwrap_or(d)
    }
    fn req(&self, k: &str) -> &str {
        self.get(k).unwrap_or_else(|| fail(&format!("missing --{k}")))
    }
}

fn fail(m: &str) -> ! {
    eprintln!("vbsim: {m}");
    std::process::exit(2)
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn once(tape: rt::Tape, tracing: bool, stuck: &dyn Fn(rt::Violation, Vec<u32>, Vec<String>) -> std::convert::Infallible) -> rt::RunResult {
    rt::run(tape, tracing, engine::setup, engine::body, engine::teardown, engine::afterwards, stuck)
}

/// Memory kept by a one-time initialisation, or in a pool of limited size, is
/// not lost: look whether it becomes more and more.
fn keeps_leaking(tape: &[u32], stuck: &dyn Fn(rt::Violation, Vec<u32>, Vec<String>) -> std::convert::Infallible) -> bool {
    let mut settled = 0;
    for i in 0..256 {
        if i == 64 {
            settled = alloc::total();
        }
        once(rt::Tape::given(tape.to_vec()), false, stuck);
    }
    alloc::total() - settled >= 16
}

fn write_replay(path: &str, prop: &str, seed: u64, idx: u64, v: &rt::Violation, tape: &[u32], trace: &[String], warm: Option<(u64, u64)>, full: &[u32]) {
    let mut s = String::new();
    s.push_str("{\n");
    s.push_str(&format!("  \"property\": {},\n  \"config\": {},\n  \"seed\": {seed},\n  \"run\": {idx},\n", json_str(prop), json_str(CONFIG)));
    s.push_str(&format!("  \"class\": {},\n  \"message\": {},\n", json_str(&v.class), json_str(&v.msg)));
    if let Some((a, b)) = warm {
        s.push_str(&format!("  \"warm_start\": {a},\n  \"warm_stride\": {b},\n"));
    }
    let t: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
    s.push_str(&format!("  \"tape\": [{}],\n", t.join(",")));
    let t: Vec<String> = full.iter().map(|x| x.to_string()).collect();
    s.push_str(&format!("  \"full_tape\": [{}],\n  \"trace\": [\n", t.join(",")));
    for (i, l) in trace.iter().enumerate() {
        s.push_str(&format!("    {}{}\n", json_str(l), if i + 1 < trace.len() { "," } else { "" }));
    }
    s.push_str("  ]\n}\n");
    if let Err(e) = std::fs::write(path, s) {
        fail(&format!("cannot write {path}: {e}"));
    }
}

/// Find a smaller tape with the same kind of violation.
fn shrink(tape: Vec<u32>, class: &str, stuck: &dyn Fn(rt::Violation, Vec<u32>, Vec<String>) -> std::convert::Infallible) -> (Vec<u32>, u32) {
    let start = Instant::now();
    let mut tries = 0;
    let mut best = tape;
    let mut ok = |t: &[u32]| -> Option<Vec<u32>> {
        if tries >= 4000 || start.elapsed() > Duration::from_secs(12) {
            return None;
        }
        tries += 1;
        let r = once(rt::Tape::given(t.to_vec()), false, stuck);
        match r.violation {
            Some(v) if v.class == class => {
                let mut t = r.tape;
                while t.last() == Some(&0) {
                    t.pop();
                }
                Some(t)
            }
            _ => None,
        }
    };
    let smaller = |a: &[u32], b: &[u32]| (a.len(), a.iter().map(|x| *x as u64).sum::<u64>()) < (b.len(), b.iter().map(|x| *x as u64).sum::<u64>());
    loop {
        let before = (best.len(), best.iter().map(|x| *x as u64).sum::<u64>());
        // truncate
        let mut n = best.len() / 2;
        while n > 0 {
            if n < best.len() {
                if let Some(t) = ok(&best[..best.len() - n]) {
                    if smaller(&t, &best) {
                        best = t;
                        continue;
                    }
                }
            }
            n /= 2;
        }
        // delete and zero chunks
        for size in [64usize, 32, 16, 8, 4, 2, 1] {
            let mut i = 0;
            while i < best.len() {
                let e = (i + size).min(best.len());
                let mut c = best.clone();
                c.drain(i..e);
                if let Some(t) = ok(&c) {
                    if smaller(&t, &best) {
                        best = t;
                        continue;
                    }
                }
                if i < best.len() && best[i..e.min(best.len())].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    let e = e.min(c.len());
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    if let Some(t) = ok(&c) {
                        if smaller(&t, &best) {
                            best = t;
                        }
                    }
                }
                i += size;
            }
        }
        // lower single values
        for i in 0..best.len() {
            for f in [1u32, 2] {
                if i < best.len() && best[i] > 0 {
                    let mut c = best.clone();
                    c[i] = if f == 1 { c[i] / 2 } else { c[i] - 1 };
                    if let Some(t) = ok(&c) {
                        if smaller(&t, &best) {
                            best = t;
                        }
                    }
                }
            }
        }
        let after = (best.len(), best.iter().map(|x| *x as u64).sum::<u64>());
        if after >= before || start.elapsed() > Duration::from_secs(12) {
            break;
        }
    }
    (best, tries)
}

fn never_stuck(v: rt::Violation, _: Vec<u32>, _: Vec<String>) -> std::convert::Infallible {
    eprintln!("vbsim: stuck: {} {}", v.class, v.msg);
    std::process::exit(4)
}

/// What the runs made so far amount to.
#[derive(Default)]
struct Sum {
    runs: u64,
    ticks: u64,
    multi: u64,
    fresh: u64,
    digest: u64,
    counters: Vec<u64>,
    nontrivial: HashSet<u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    unconfirmed: Vec<String>,
}

impl Sum {
    fn write(&self, out: &str, wall: f64, found: Option<&(u64, rt::Violation)>) {
        let c: Vec<String> = rt::COUNTER_NAMES
            .iter()
            .enumerate()
            .map(|(i, n)| format!("{}:{}", json_str(n), self.counters.get(i).copied().unwrap_or(0)))
            .collect();
        let nt: Vec<String> = self.nontrivial.iter().map(|x| format!("\"{x:016x}\"")).collect();
        let sm: Vec<String> = self.samples.iter().map(|x| json_str(x)).collect();
        let un: Vec<String> = self.unconfirmed.iter().map(|x| json_str(x)).collect();
        let v = match found {
            None => "null".to_string(),
            Some((i, v)) => format!("{{\"run\":{i},\"class\":{},\"message\":{}}}", json_str(&v.class), json_str(&v.msg)),
        };
        let s = format!(
            "{{\"config\":{},\"runs\":{},\"ticks\":{},\"multi\":{},\"fresh\":{},\"distinct\":{},\"digest\":\"{:016x}\",\"wall\":{wall:.3},\"violation\":{v},\"unconfirmed\":[{}],\"samples\":[{}],\"counters\":{{{}}},\"hashes\":[{}]}}\n",
            json_str(CONFIG),
            self.runs,
            self.ticks,
            self.multi,
            self.fresh,
            self.distinct.len(),
            self.digest,
            un.join(","),
            sm.join(","),
            c.join(","),
            nt.join(",")
        );
        if let Err(e) = std::fs::write(out, s) {
            fail(&format!("{out}: {e}"));
        }
    }

    fn encode(&self) -> Vec<u8> {
        let mut o = vec![self.runs, self.ticks, self.multi, self.digest];
        for l in [self.counters.clone(), self.nontrivial.iter().copied().collect(), self.distinct.iter().copied().collect()] {
            o.push(l.len() as u64);
            o.extend(l);
        }
        let mut b: Vec<u8> = o.iter().flat_map(|x| x.to_le_bytes()).collect();
        for l in [&self.samples, &self.unconfirmed] {
            b.extend((l.len() as u64).to_le_bytes());
            for s in l {
                b.extend((s.len() as u64).to_le_bytes());
                b.extend(s.bytes());
            }
        }
        b
    }

    /// Add what a part of the search reports. `None` if it is incomplete.
    fn add(&mut self, b: &[u8]) -> Option<()> {
        let mut at = 0;
        let mut bytes = |n: usize| {
            let r = b.get(at..at + n);
            at += n;
            r
        };
        let mut num = || bytes(8).map(|x| u64::from_le_bytes(x.try_into().unwrap()));
        let (runs, ticks, multi, digest) = (num()?, num()?, num()?, num()?);
        let n = num()? as usize;
        self.counters.resize(n.max(self.counters.len()), 0);
        for i in 0..n {
            self.counters[i] += num()?;
        }
        for set in [&mut self.nontrivial, &mut self.distinct] {
            for _ in 0..num()? {
                set.insert(num()?);
            }
        }
        for l in [&mut self.samples, &mut self.unconfirmed] {
            let mut num = || bytes(8).map(|x| u64::from_le_bytes(x.try_into().unwrap()));
            let n = num()?;
            for _ in 0..n {
                let len = bytes(8).map(|x| u64::from_le_bytes(x.try_into().unwrap()))?;
                let s = String::from_utf8_lossy(bytes(len as usize)?).into_owned();
                if l.len() < 8 {
                    l.push(s);
                }
            }
        }
        self.runs += runs;
        self.ticks += ticks;
        self.multi += multi;
        self.fresh += 1;
        self.digest = rt::mix(self.digest, digest);
        Some(())
    }
}

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
}

/// How many runs the process of part `k` makes: most processes make few, so
/// that what the library does once per process is met over and over in all
/// circumstances; some make many, so that what builds up shows.
fn part(k: u64) -> u64 {
    const SIZES: [u64; 24] = [1, 16, 1, 4, 1, 1, 64, 1, 1, 4, 1, 1, 16, 1, 4, 1, 1, 1, 4, 1, 1, 1, 1, 256];
    let (cycle, i) = (k / 25, (k % 25) as usize);
    match SIZES.get(i) {
        Some(n) => *n,
        None if cycle % 8 == 3 => 8000,
        None => 1,
    }
}

fn cmd_run(a: &Args) {
    use std::io::Read;
    use std::os::fd::FromRawFd;
    let start = a.num("start", 0);
    let stride = a.num("stride", 1);
    let count = a.num("count", 1000);
    let secs = a.num("secs", 20);
    let out = a.req("out").to_string();
    let t0 = Instant::now();
    let mut sum = Sum::default();
    let (mut k, mut done) = (0, 0);
    while done < count && t0.elapsed() <= Duration::from_secs(secs) {
        let n = part(k).min(count - done);
        let mut fds = [0i32; 2];
        if unsafe { pipe(fds.as_mut_ptr()) } != 0 {
            fail("no pipe");
        }
        let (mut rd, mut wr) = unsafe { (std::fs::File::from_raw_fd(fds[0]), std::fs::File::from_raw_fd(fds[1])) };
        match unsafe { fork() } {
            -1 => fail("cannot fork"),
            0 => {
                drop(rd);
                let mine = run_part(a, start + done * stride, n, t0, &mut sum);
                let _ = wr.write_all(&mine.encode());
                drop(wr);
                std::process::exit(0)
            }
            pid => {
                drop(wr);
                let mut b = vec![];
                let _ = rd.read_to_end(&mut b);
                let mut st = 0;
                while unsafe { waitpid(pid, &mut st, 0) } == -1 {
                    if std::io::Error::last_os_error().kind() != std::io::ErrorKind::Interrupted {
                        fail("cannot wait");
                    }
                }
                if st & 0x7f != 0 {
                    // ended by a signal
                    std::process::exit(128 + (st & 0x7f));
                }
                if st != 0 {
                    std::process::exit(st >> 8 & 0xff);
                }
                if sum.add(&b).is_none() {
                    fail("a part of the search reported nothing");
                }
            }
        }
        k += 1;
        done += n;
    }
    sum.write(&out, t0.elapsed().as_secs_f64(), None);
    std::process::exit(0);
}

/// Make some runs in this process, which has not run the library before.
fn run_part(a: &Args, start: u64, count: u64, t0: Instant, before: &mut Sum) -> Sum {
    let prop = a.req("prop").to_string();
    let seed = a.num("seed", 1);
    let stride = a.num("stride", 1);
    let secs = a.num("secs", 20);
    let out = a.req("out").to_string();
    let replay = a.req("replay").to_string();
    let mut prog = a.get("progress").map(|p| std::fs::File::create(p).unwrap_or_else(|e| fail(&format!("{p}: {e}"))));
    let mut sum = Sum::default();
    let snap = || -> Vec<u64> { rt::COUNTERS.iter().map(|c| c.load(Relaxed)).collect() };
    for k in 0..count {
        if t0.elapsed() > Duration::from_secs(secs) {
            break;
        }
        let idx = start + k * stride;
        if let Some(f) = prog.as_mut() {
            let _ = f.rewind();
            let _ = f.write_all(format!("{idx:020} {start:020}\n").as_bytes());
        }
        let s = run_seed(seed, &prop, idx);
        let earlier = snap();
        let (p2, r2) = (prop.clone(), replay.clone());
        let out2 = out.clone();
        let stuck = move |v: rt::Violation, tape: Vec<u32>, trace: Vec<String>| -> std::convert::Infallible {
            if !profile::relevant(&v.class) && !matches!(v.class.as_str(), "deadlock" | "hang") {
                std::process::exit(4);
            }
            write_replay(&r2, &p2, seed, idx, &v, &tape, &trace, None, &tape);
            let _ = std::fs::write(&out2, format!("{{\"stuck\":true,\"run\":{idx},\"class\":{},\"message\":{}}}\n", json_str(&v.class), json_str(&v.msg)));
            std::process::exit(3)
        };
        let r = once(rt::Tape::seeded(s), false, &stuck);
        let after = snap();
        sum.runs += 1;
        sum.ticks += r.ticks;
        sum.digest = rt::mix(sum.digest ^ r.hash, idx);
        let d = |c: rt::C| after[c as usize] - earlier[c as usize];
        let faults: u64 = [
            rt::C::writer_refusal,
            rt::C::stream_error,
            rt::C::serializer_error,
            rt::C::visitor_error,
            rt::C::source_error,
            rt::C::source_error_lasting,
            rt::C::source_panic,
            rt::C::sink_panic,
            rt::C::alloc_failure,
            rt::C::reentry,
            rt::C::source_mutation,
        ]
        .into_iter()
        .map(d)
        .sum();
        let pre: u64 = [rt::C::preempt_in_library, rt::C::preempt_at_static, rt::C::preempt_in_callback, rt::C::preempt_in_sink, rt::C::preempt_at_alloc, rt::C::preempt_at_free].into_iter().map(d).sum();
        if pre > 0 {
            sum.multi += 1;
        }
        sum.distinct.insert(r.hash);
        if faults + pre > 0 {
            sum.nontrivial.insert(r.hash);
            if before.samples.len() + sum.samples.len() < 3 {
                sum.samples.push(format!(
                    "seed {s:#018x} run {idx}: {} events, {faults} faults or changes, {pre} preemptions inside operations, trace hash {:016x}",
                    r.ticks, r.hash
                ));
            }
        }
        if let Some(v) = r.violation {
            // the same decisions must misbehave again
            let again = once(rt::Tape::given(r.tape.clone()), false, &stuck);
            if v.class == "leak" && !keeps_leaking(&r.tape, &stuck) {
                sum.unconfirmed.push(format!("run {idx}: {}", v.msg));
                continue;
            }
            let found = match again.violation {
                Some(w) if w.class == v.class => {
                    let (tape, tries) = shrink(r.tape.clone(), &v.class, &stuck);
                    let fin = once(rt::Tape::given(tape.clone()), true, &stuck);
                    let fv = fin.violation.unwrap_or(w);
                    let mut trace = fin.trace;
                    trace.push(format!("(minimised from {} to {} decisions in {tries} simulated runs)", r.tape.len(), tape.len()));
                    write_replay(&replay, &prop, seed, idx, &fv, &tape, &trace, None, &r.tape);
                    fv
                }
                _ => {
                    // depends on what ran before in this process, or on nothing having run
                    write_replay(&replay, &prop, seed, idx, &v, &r.tape, &r.trace, Some((start, stride)), &r.tape);
                    v
                }
            };
            sum.counters = snap();
            before.add(&sum.encode());
            before.write(&out, t0.elapsed().as_secs_f64(), Some(&(idx, found)));
            std::process::exit(1);
        }
    }
    sum.counters = snap();
    sum
}

fn scan_num(s: &str, key: &str) -> Option<u64> {
    let i = s.find(&format!("\"{key}\":"))? + key.len() + 3;
    s[i..].trim_start().split(|c: char| !c.is_ascii_digit()).next()?.parse().ok()
}

fn scan_str(s: &str, key: &str) -> Option<String> {
    let i = s.find(&format!("\"{key}\":"))? + key.len() + 3;
    let r = s[i..].trim_start().strip_prefix('"')?;
    Some(r.split('"').next()?.to_string())
}

/// Play a replay file back. Exit 1 if the violation shows, 0 if not.
fn cmd_replay(a: &Args) {
    let f = a.req("file");
    let s = std::fs::read_to_string(f).unwrap_or_else(|e| fail(&format!("{f}: {e}")));
    let prop = scan_str(&s, "property").unwrap_or_else(|| fail("no property"));
    if !profile::select(&prop) {
        fail("unknown property");
    }
    let i = s.find("\"tape\":").unwrap_or_else(|| fail("no tape"));
    let t = &s[i..];
    let t = &t[t.find('[').unwrap() + 1..t.find(']').unwrap()];
    let tape: Vec<u32> = t.split(',').filter_map(|x| x.trim().parse().ok()).collect();
    if let (Some(st), Some(stride)) = (scan_num(&s, "warm_start"), scan_num(&s, "warm_stride")) {
        let seed = scan_num(&s, "seed").unwrap();
        let run = scan_num(&s, "run").unwrap();
        let mut i = st;
        while i < run {
            let r = once(rt::Tape::seeded(run_seed(seed, &prop, i)), false, &never_stuck);
            if let Some(v) = r.violation {
                let _ = once(rt::Tape::given(r.tape), false, &never_stuck);
                let _ = v;
            }
            i += stride;
        }
    }
    let quiet = a.get("quiet").is_some();
    let stuck = |v: rt::Violation, _: Vec<u32>, trace: Vec<String>| -> std::convert::Infallible {
        for l in trace {
            println!("{l}");
        }
        println!("REPRODUCED class={} {}", v.class, v.msg);
        std::process::exit(1)
    };
    let log = a.get("tape-log");
    rt::log_tape(log);
    let r = once(rt::Tape::given(tape), true, &stuck);
    if !quiet {
        for l in &r.trace {
            println!("{l}");
        }
    }
    println!("trace hash {:016x}, {} events", r.hash, r.ticks);
    match r.violation {
        Some(v) => {
            println!("REPRODUCED class={} {}", v.class, v.msg);
            std::process::exit(1)
        }
        None => {
            println!("no violation");
            std::process::exit(0)
        }
    }
}

/// One run by number, its decisions written out as they are made.
fn cmd_one(a: &Args) {
    let prop = a.req("prop");
    let seed = a.num("seed", 1);
    let idx = a.num("run", 0);
    rt::log_tape(a.get("tape-log"));
    let stuck = |v: rt::Violation, _: Vec<u32>, trace: Vec<String>| -> std::convert::Infallible {
        for l in trace {
            println!("{l}");
        }
        println!("VIOLATED class={} {}", v.class, v.msg);
        std::process::exit(1)
    };
    let r = once(rt::Tape::seeded(run_seed(seed, prop, idx)), true, &stuck);
    for l in &r.trace {
        println!("{l}");
    }
    println!("trace hash {:016x}, {} events", r.hash, r.ticks);
    if let Some(v) = r.violation {
        println!("VIOLATED class={} {}", v.class, v.msg);
        std::process::exit(1);
    }
}

/// Trace hashes of a range of runs, for comparing executions.
fn cmd_digest(a: &Args) {
    let prop = a.req("prop");
    let seed = a.num("seed", 1);
    let start = a.num("start", 0);
    let stride = a.num("stride", 1);
    for k in 0..a.num("count", 100) {
        let idx = start + k * stride;
        let r = once(rt::Tape::seeded(run_seed(seed, prop, idx)), false, &never_stuck);
        println!("{idx} {:016x} {} {}", r.hash, r.ticks, r.violation.map(|v| v.class).unwrap_or_default());
    }
}

fn main() {
    // re-entrant operations on deeply nested values need room
    std::env::set_var("RUST_MIN_STACK", (24 << 20).to_string());
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    let mut m = BTreeMap::new();
    while let Some(k) = it.next() {
        let k = k.trim_start_matches("--").to_string();
        let v = it.next().unwrap_or_default();
        m.insert(k, v);
    }
    let a = Args(m);
    std::panic::set_hook(Box::new(|i| {
        alloc::harness(|| {
            let m = i
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| i.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "?".into());
            let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            if rt::tid() == usize::MAX {
                eprintln!("vbsim: panic: {m} at {l}");
            } else if std::env::var_os("VBSIM_PANICS").is_some() {
                eprintln!("panic: {m} at {l}\n{}", std::backtrace::Backtrace::force_capture());
            }
            let _ = engine::PANIC_MSG.try_with(|p| *p.borrow_mut() = format!("{m} at {l}"));
        })
    }));
    std::alloc::set_alloc_error_hook(|_| {
        alloc::harness(|| rt::throw("allocation failure"));
    });
    if let Some(p) = a.get("prop") {
        if !profile::select(p) {
            fail("unknown property");
        }
    }
    match cmd.as_str() {
        "run" => cmd_run(&a),
        "replay" => cmd_replay(&a),
        "one" => cmd_one(&a),
        "digest" => cmd_digest(&a),
        _ => fail("usage: vbsim run|replay|one|digest ..."),
    }
}

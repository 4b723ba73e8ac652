//! Exhaustive exploration framework: a property is a set of finite spaces, each space is a
//! function from an index to one execution of the real code checked against an oracle.
//! All indices of a space are executed (no sampling); a run that had to stop early because of
//! the wall-clock cap says so in its evidence ("exhaustive": false).

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

/// Per-thread bookkeeping handed to every case.
pub struct Local {
    pub transitions: u64,
    pub traces: u64,
    pub nontrivial: u64,
    pub labels: BTreeMap<&'static str, u64>,
    bits: &'static [AtomicU64],
    new_states: u64,
    pub want_note: bool,
    pub note: String,
}
impl Local {
    /// Record a visited (abstract) state.
    pub fn state(&mut self, h: u64) {
        let h = h.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (h >> 29);
        let bit = h % (self.bits.len() as u64 * 64);
        let m = 1u64 << (bit % 64);
        let w = &self.bits[(bit / 64) as usize];
        if w.load(Relaxed) & m == 0 && w.fetch_or(m, Relaxed) & m == 0 {
            self.new_states += 1;
        }
    }
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_note {
            self.note = f();
        }
    }
}

pub struct Space {
    pub name: String,
    pub size: u64,
    pub run: Box<dyn Fn(u64, &mut Local) -> R + Send + Sync>,
    pub show: Box<dyn Fn(u64) -> String + Send + Sync>,
}
impl Space {
    pub fn new(
        name: impl Into<String>,
        size: u64,
        show: impl Fn(u64) -> String + Send + Sync + 'static,
        run: impl Fn(u64, &mut Local) -> R + Send + Sync + 'static,
    ) -> Self {
        Space { name: name.into(), size, run: Box::new(run), show: Box::new(show) }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self.thorough() { t } else { q }
    }
}

pub struct Property {
    pub id: &'static str,
    pub spaces: fn(Tier) -> Vec<Space>,
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("panic: {msg} at {loc}"));
    }));
}

/// Runs a closure, turning a panic into an error message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

fn rss_kb() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()))
        .map(|p| p * 4)
        .unwrap_or(0)
}

#[derive(Clone)]
struct Violation {
    space: String,
    index: u64,
    msg: String,
    show: String,
}

struct Slot {
    start_ms: AtomicU64, // 0 = idle
    index: AtomicU64,
}

pub fn known_findings(prop: &str) -> Vec<(String, String)> {
    // lines: finding: property=<id> case=<space>:<index> <what fails>
    // Only a violation in that case whose message contains the text is known; another one in the same case is not.
    let path = std::env::var("MC_KNOWN").unwrap_or("/verif/known_findings.txt".into());
    let mut v = vec![];
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix(&format!("finding: property={prop} case=")) {
            let (k, t) = r.split_once(' ').unwrap_or((r, ""));
            v.push((k.to_string(), t.to_string()));
        }
    }
    v
}

pub fn replay(p: &Property, space: &str, index: u64) -> i32 {
    install_hook();
    let bits: &'static [AtomicU64] = Box::leak((0..16).map(|_| AtomicU64::new(0)).collect::<Vec<_>>().into_boxed_slice());
    for t in [Tier::Quick, Tier::Thorough] {
        for s in (p.spaces)(t) {
            if s.name == space && index < s.size {
                println!("{}", (s.show)(index));
                let mut l = Local { transitions: 0, traces: 0, nontrivial: 0, labels: BTreeMap::new(), bits, new_states: 0, want_note: true, note: String::new() };
                let r = guard(|| (s.run)(index, &mut l)).and_then(|x| x);
                println!("{}", l.note);
                return match r {
                    Ok(()) => {
                        println!("holds");
                        0
                    }
                    Err(e) => {
                        println!("VIOLATED: {e}");
                        1
                    }
                };
            }
        }
    }
    println!("no such case");
    2
}

pub fn run_property(p: &Property, tier: Tier, seed: u64, budget: Duration, out_dir: &str, evidence: &str, only: Option<&str>, max_viol: usize) -> i32 {
    install_hook();
    let t0 = Instant::now();
    let threads = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(8));
    let nbits: usize = 1 << 30;
    let bits: &'static [AtomicU64] = Box::leak((0..nbits / 64).map(|_| AtomicU64::new(0)).collect::<Vec<_>>().into_boxed_slice());
    let known = known_findings(p.id);
    let mut states = 0u64;
    let mut transitions = 0u64;
    let mut traces = 0u64;
    let mut evals = 0u64;
    let mut nontrivial = 0u64;
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut samples: Vec<serde_json::Value> = vec![];
    let mut spaces_json = vec![];
    let mut exhaustive = true;
    let mut known_hit: Vec<(String, String)> = vec![];
    let viols: Mutex<Vec<Violation>> = Mutex::new(vec![]);
    let case_limit_ms: u64 = std::env::var("MC_CASE_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(60_000);

    let mut spaces = (p.spaces)(tier);
    if let Some(o) = only {
        spaces.retain(|s| s.name.contains(o));
    }
    'spaces: for s in &spaces {
        let ts = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let done = AtomicBool::new(false);
        let executed = AtomicU64::new(0);
        let slots: Vec<Slot> = (0..threads).map(|_| Slot { start_ms: AtomicU64::new(0), index: AtomicU64::new(0) }).collect();
        let chunk = (s.size / (threads as u64 * 64)).clamp(1, 4096);
        let locals = std::thread::scope(|sc| {
            // watchdog: non-termination and runaway memory are violations too
            {
                let (slots, done, viols, stop) = (&slots, &done, &viols, &stop);
                sc.spawn(move || {
                    while !done.load(Relaxed) {
                        std::thread::sleep(Duration::from_millis(25));
                        let now = t0.elapsed().as_millis() as u64 + 1;
                        let big = rss_kb() > 20_000_000;
                        let mut worst: Option<(u64, u64)> = None;
                        for sl in slots {
                            let st = sl.start_ms.load(Acquire);
                            if st != 0 {
                                let d = now.saturating_sub(st);
                                if worst.is_none_or(|w| d > w.0) {
                                    worst = Some((d, sl.index.load(Acquire)));
                                }
                            }
                        }
                        if let Some((d, i)) = worst
                            && (d > case_limit_ms || (big && d > 200))
                        {
                            let v = Violation { space: s.name.clone(), index: i, msg: format!("does not terminate: still running after {d} ms (memory {} MB)", rss_kb() / 1000), show: (s.show)(i) };
                            let key = format!("{}:{}", v.space, v.index);
                            let mut g = viols.lock().unwrap();
                            g.push(v.clone());
                            let _ = key;
                            emit(p.id, tier, out_dir, &g);
                            let _ = std::fs::write(evidence, serde_json::json!({"property":p.id,"tier":if tier.thorough(){"thorough"}else{"quick"},"seed":seed,"level":"model_checking","coverage":{"states":1,"transitions":1,"traces_validated_against_impl":1,"samples":[v.show],"exhaustive":false},"violations":g.len(),"wall_s":t0.elapsed().as_secs_f64()}).to_string());
                            std::process::exit(1);
                        }
                        if t0.elapsed() > budget {
                            stop.store(true, Relaxed);
                        }
                    }
                });
            }
            let hs: Vec<_> = (0..threads)
                .map(|t| {
                    let (next, stop, slots, viols, executed) = (&next, &stop, &slots, &viols, &executed);
                    sc.spawn(move || {
                        let mut l = Local { transitions: 0, traces: 0, nontrivial: 0, labels: BTreeMap::new(), bits, new_states: 0, want_note: false, note: String::new() };
                        let mut ev = 0u64;
                        'outer: loop {
                            let base = next.fetch_add(chunk, Relaxed);
                            if base >= s.size || stop.load(Relaxed) {
                                break;
                            }
                            for i in base..(base + chunk).min(s.size) {
                                slots[t].index.store(i, Release);
                                slots[t].start_ms.store(t0.elapsed().as_millis() as u64 + 1, Release);
                                let r = match catch_unwind(AssertUnwindSafe(|| (s.run)(i, &mut l))) {
                                    Ok(r) => r,
                                    Err(_) => Err(PANIC.with(|p| p.borrow().clone())),
                                };
                                slots[t].start_ms.store(0, Release);
                                ev += 1;
                                if let Err(msg) = r {
                                    let mut g = viols.lock().unwrap();
                                    g.push(Violation { space: s.name.clone(), index: i, msg, show: (s.show)(i) });
                                    if g.len() >= max_viol + 4000 {
                                        stop.store(true, Relaxed);
                                        break 'outer;
                                    }
                                }
                            }
                        }
                        executed.fetch_add(ev, Relaxed);
                        l
                    })
                })
                .collect();
            let ls: Vec<Local> = hs.into_iter().map(|h| h.join().unwrap()).collect();
            done.store(true, Relaxed);
            ls
        });
        let ex = executed.load(Relaxed);
        let mut st = 0;
        let mut tr = 0;
        for l in locals {
            st += l.new_states;
            tr += l.transitions;
            traces += l.traces;
            nontrivial += l.nontrivial;
            for (k, v) in l.labels {
                *labels.entry(k).or_insert(0) += v;
            }
        }
        states += st;
        transitions += tr;
        evals += ex;
        if ex < s.size {
            exhaustive = false;
        }
        for i in [0, s.size / 3, s.size.saturating_sub(1)] {
            if samples.len() < 12 && s.size > 0 {
                samples.push(serde_json::json!({"space": s.name, "index": i, "case": (s.show)(i)}));
            }
        }
        spaces_json.push(serde_json::json!({"name": s.name, "size": s.size, "executed": ex, "new_states": st, "transitions": tr, "wall_s": ts.elapsed().as_secs_f64()}));
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("{} {}: {}/{} cases, {} new states, {} transitions, {:.1}s", p.id, s.name, ex, s.size, st, tr, ts.elapsed().as_secs_f64());
        }
        // filter known findings
        {
            let mut g = viols.lock().unwrap();
            let (k, v): (Vec<_>, Vec<_>) = g.drain(..).partition(|v| known.iter().any(|(kk, t)| *kk == format!("{}:{}", v.space, v.index) && v.msg.contains(t.as_str())));
            for x in k {
                let key = format!("{}:{}", x.space, x.index);
                if !known_hit.iter().any(|(a, _)| *a == key) {
                    known_hit.push((key, x.msg));
                }
            }
            *g = v;
            if g.len() >= max_viol {
                exhaustive = false;
                break 'spaces;
            }
        }
        if t0.elapsed() > budget {
            exhaustive = false;
            break;
        }
    }
    let mut v = viols.lock().unwrap().clone();
    v.sort_by(|a, b| (a.space.as_str(), a.index).cmp(&(b.space.as_str(), b.index)));
    if std::env::var("MC_ALL").is_ok() {
        for x in &v {
            eprintln!("ALL case={}:{} {}", x.space, x.index, x.msg);
        }
    }
    for (k, m) in &known_hit {
        println!("KNOWN-FINDING: property={} {k} {m}", p.id);
    }
    let ev = serde_json::json!({
        "property": p.id, "tier": if tier.thorough() {"thorough"} else {"quick"}, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": states, "transitions": transitions, "traces_validated_against_impl": traces,
            "evaluations": evals, "distinct_nontrivial": nontrivial,
            "rule": "every index of every listed space is executed on the real code and compared with the reference model; non-trivial = the case produced the artefact the property is about (e.g. at least one span/region/contour/polygon)",
            "exhaustive": exhaustive, "samples": samples, "spaces": spaces_json, "labels": labels,
        },
        "assumptions": p.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": v.len(),
    });
    if let Some(d) = std::path::Path::new(evidence).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(evidence, serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    println!("{} {:?}: {} cases, {} states, {} transitions, {} traces, exhaustive={}, {} violations, {:.1}s", p.id, tier, evals, states, transitions, traces, exhaustive, v.len(), t0.elapsed().as_secs_f64());
    if v.is_empty() {
        return 0;
    }
    emit(p.id, tier, out_dir, &v);
    1
}

fn emit(id: &str, tier: Tier, out_dir: &str, v: &[Violation]) {
    let _ = std::fs::create_dir_all(out_dir);
    let so = std::io::stdout();
    let mut so = so.lock();
    // one representative per distinct message shape (digits removed), at most 8
    let mut shapes: Vec<(String, usize)> = vec![];
    for x in v.iter() {
        let shape: String = x.msg.chars().filter(|c| !c.is_ascii_digit()).take(120).collect();
        if let Some(s) = shapes.iter_mut().find(|s| s.0 == shape) {
            s.1 += 1;
            continue;
        }
        shapes.push((shape, 1));
        if shapes.len() > 8 {
            continue;
        }
        let path = format!("{out_dir}/{id}-{}-{}.json", x.space.replace(|c: char| !c.is_ascii_alphanumeric(), "_"), x.index);
        let j = serde_json::json!({"property": id, "tier": format!("{tier:?}"), "space": x.space, "index": x.index, "message": x.msg, "case": x.show});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
        let _ = writeln!(so, "  {}:{} {}\n    {}", x.space, x.index, x.msg, x.show);
        let _ = writeln!(so, "VIOLATION property={id} replay={path}");
    }
    for (s, n) in shapes {
        let _ = writeln!(so, "  {n} x {s}");
    }
    let _ = so.flush();
}

/// Mixed-radix decoding of a case index.
pub struct Dec(pub u64);
impl Dec {
    pub fn take(&mut self, n: u64) -> u64 {
        let r = self.0 % n;
        self.0 /= n;
        r
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.take(v.len() as u64) as usize]
    }
}

pub struct Hsh(pub u64);
impl Hsh {
    pub fn new() -> Self {
        Hsh(0xcbf29ce484222325)
    }
    pub fn add(&mut self, x: u64) {
        self.0 = (self.0 ^ x).wrapping_mul(0x100000001b3);
        self.0 ^= self.0 >> 32;
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

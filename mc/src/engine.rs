//! Bounded exhaustive exploration engine.
//!
//! A property is a list of *families*; a family is a finite, index-addressed space of executions
//! (`0..count`), and every index is executed on the real code and judged against the reference model.
//! The exploration runs in a child process watched by a supervisor, so that an abort, stack overflow,
//! hang or memory blow-up of the code under test is attributed to the execution in flight.

use std::{
    collections::{hash_map::DefaultHasher, BTreeMap, HashSet},
    hash::{Hash, Hasher},
    io::Write,
    os::unix::process::ExitStatusExt,
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    process::{Command, Stdio},
    sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst},
    sync::Mutex,
    time::{Duration, Instant, SystemTime, UNIX_EPOCH},
};

pub type R = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    /// choose a bound by tier
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

pub struct Family {
    pub name: String,
    /// what is enumerated, and the bound
    pub bounds: String,
    pub count: u64,
    pub run: Box<dyn Fn(u64, &mut Ctx) -> R + Send + Sync>,
}

pub fn family<F>(name: &str, bounds: impl Into<String>, count: u64, run: F) -> Family
where
    F: Fn(u64, &mut Ctx) -> R + Send + Sync + 'static,
{
    Family {
        name: name.to_string(),
        bounds: bounds.into(),
        count,
        run: Box::new(run),
    }
}

const STATE_CAP: usize = 3_000_000;

#[derive(Default)]
pub struct Ctx {
    pub traces: u64,
    pub transitions: u64,
    states: HashSet<u64>,
    states_capped: bool,
    pub outcomes: BTreeMap<String, u64>,
    samples: Vec<String>,
    want_sample: bool,
    pub verbose: bool,
    fam: usize,
    /// per family: inputs the reference accepts, and refuses
    verdicts: BTreeMap<usize, (u64, u64)>,
}

impl Ctx {
    /// One model execution of `steps` steps was replayed on the implementation and compared.
    pub fn trace(&mut self, steps: u64) {
        self.traces += 1;
        self.transitions += steps;
    }
    /// The reference's verdict on an input, so that the evidence shows how much of a family is accepted.
    pub fn verdict(&mut self, accepted: bool) {
        let v = self.verdicts.entry(self.fam).or_default();
        if accepted {
            v.0 += 1
        } else {
            v.1 += 1
        }
    }
    /// Record a (canonical) model state reached.
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        if self.states.len() >= STATE_CAP {
            self.states_capped = true;
            return;
        }
        let mut h = DefaultHasher::new();
        t.hash(&mut h);
        self.states.insert(h.finish());
    }
    pub fn outcome(&mut self, o: &str) {
        if let Some(n) = self.outcomes.get_mut(o) {
            *n += 1;
        } else if self.outcomes.len() < 200 {
            self.outcomes.insert(o.to_string(), 1);
        }
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_sample {
            let mut s = f();
            if s.len() > 600 {
                let mut i = 600;
                while !s.is_char_boundary(i) {
                    i -= 1;
                }
                s.truncate(i);
                s.push('…');
            }
            self.samples.push(s);
            self.want_sample = false;
        }
    }
}

pub fn now_ms() -> u64 {
    SystemTime::now()
        .duration_since(UNIX_EPOCH)
        .unwrap()
        .as_millis() as u64
}

/// a shared slot per worker: family, index, start time, active
struct Slots {
    p: *mut AtomicU64,
}
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}
const MAX_WORKERS: usize = 64;
const SLOT_BYTES: usize = MAX_WORKERS * 32;

impl Slots {
    fn map(path: &Path) -> Slots {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .expect("slot file");
        f.set_len(SLOT_BYTES as u64).unwrap();
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SLOT_BYTES,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Slots { p: p as *mut AtomicU64 }
    }
    fn cell(&self, worker: usize, field: usize) -> &AtomicU64 {
        unsafe { &*self.p.add(worker * 4 + field) }
    }
    fn begin(&self, w: usize, fam: u64, idx: u64) {
        self.cell(w, 0).store(fam, SeqCst);
        self.cell(w, 1).store(idx, SeqCst);
        self.cell(w, 2).store(now_ms(), SeqCst);
        self.cell(w, 3).store(1, SeqCst);
    }
    fn end(&self, w: usize) {
        self.cell(w, 3).store(0, SeqCst);
    }
    fn active(&self) -> Vec<(u64, u64, u64)> {
        (0..MAX_WORKERS)
            .filter(|w| self.cell(*w, 3).load(SeqCst) == 1)
            .map(|w| {
                (
                    self.cell(w, 0).load(SeqCst),
                    self.cell(w, 1).load(SeqCst),
                    self.cell(w, 2).load(SeqCst),
                )
            })
            .collect()
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{}", info);
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
}

/// run something of the code under test, turning a panic into an Err
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| format!("panic: {}", LAST_PANIC.with(|p| p.borrow().replace('\n', " "))))
}

pub fn run_case(f: &Family, i: u64, ctx: &mut Ctx) -> R {
    match guarded(|| (f.run)(i, ctx)) {
        Ok(r) => r,
        Err(e) => Err(e),
    }
}

pub struct Violation {
    pub family: usize,
    pub index: u64,
    pub message: String,
}

struct Totals {
    evaluations: u64,
    traces: u64,
    transitions: u64,
    states: u64,
    states_capped: bool,
    outcomes: BTreeMap<String, u64>,
    samples: Vec<String>,
}

/// Explore everything; executed in the child process.
pub fn explore(families: &[Family], slot_path: &Path, out_path: &Path, budget: Duration, known: &[Known]) -> i32 {
    install_panic_hook();
    let slots = Slots::map(slot_path);
    let workers = std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(8)
        .clamp(1, 16);
    let stop = AtomicBool::new(false);
    let timed_out = AtomicBool::new(false);
    let deadline = Instant::now() + budget;
    let cursors: Vec<AtomicU64> = families.iter().map(|_| AtomicU64::new(0)).collect();
    let done: Vec<AtomicU64> = families.iter().map(|_| AtomicU64::new(0)).collect();
    let spent_us: Vec<AtomicU64> = families.iter().map(|_| AtomicU64::new(0)).collect();
    let violations: Mutex<Vec<Violation>> = Mutex::new(vec![]);
    let known_hits: Mutex<std::collections::BTreeSet<String>> = Mutex::default();
    let totals: Mutex<Vec<Ctx>> = Mutex::new(vec![]);
    let ids = AtomicUsize::new(0);

    std::thread::scope(|s| {
        for _ in 0..workers {
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, || {
                    let w = ids.fetch_add(1, SeqCst);
                    let mut ctx = Ctx::default();
                    'outer: for (fi, fam) in families.iter().enumerate() {
                        ctx.fam = fi;
                        let chunk = (fam.count / (workers as u64 * 32)).clamp(1, 512);
                        loop {
                            let start = cursors[fi].fetch_add(chunk, SeqCst);
                            if start >= fam.count {
                                break;
                            }
                            let t0 = Instant::now();
                            for i in start..(start + chunk).min(fam.count) {
                                if stop.load(SeqCst) {
                                    break 'outer;
                                }
                                if i % 16 == 0 && Instant::now() > deadline {
                                    timed_out.store(true, SeqCst);
                                    stop.store(true, SeqCst);
                                    break 'outer;
                                }
                                ctx.want_sample = w == 0 && i == start && ctx.samples.len() < 60 && {
                                    // one or two samples a family
                                    ctx.samples.iter().filter(|s| s.starts_with(&fam.name)).count() < 2
                                };
                                let before = ctx.samples.len();
                                slots.begin(w, fi as u64, i);
                                let r = run_case(fam, i, &mut ctx);
                                slots.end(w);
                                if ctx.samples.len() > before {
                                    let l = ctx.samples.last_mut().unwrap();
                                    *l = format!("{}[{}]: {}", fam.name, i, l);
                                }
                                done[fi].fetch_add(1, SeqCst);
                                if let Err(message) = r {
                                    if let Some(k) = known_as(known, fam, i, &message) {
                                        known_hits.lock().unwrap().insert(k.2.clone());
                                        continue;
                                    }
                                    let mut v = violations.lock().unwrap();
                                    v.push(Violation { family: fi, index: i, message });
                                    if v.len() >= 40 {
                                        stop.store(true, SeqCst);
                                    }
                                }
                            }
                            spent_us[fi].fetch_add(t0.elapsed().as_micros() as u64, SeqCst);
                        }
                        // a violated family ends the exploration: later families add nothing
                        if !violations.lock().unwrap().is_empty() {
                            stop.store(true, SeqCst);
                            break 'outer;
                        }
                    }
                    totals.lock().unwrap().push(ctx);
                })
                .unwrap();
        }
    });

    let mut t = Totals {
        evaluations: done.iter().map(|d| d.load(SeqCst)).sum(),
        traces: 0,
        transitions: 0,
        states: 0,
        states_capped: false,
        outcomes: BTreeMap::new(),
        samples: vec![],
    };
    let mut all_states: HashSet<u64> = HashSet::new();
    let mut verdicts: BTreeMap<usize, (u64, u64)> = BTreeMap::new();
    for c in totals.into_inner().unwrap() {
        t.traces += c.traces;
        t.transitions += c.transitions;
        t.states_capped |= c.states_capped;
        all_states.extend(c.states);
        for (k, v) in c.verdicts {
            let e = verdicts.entry(k).or_default();
            e.0 += v.0;
            e.1 += v.1;
        }
        for (k, v) in c.outcomes {
            *t.outcomes.entry(k).or_default() += v;
        }
        t.samples.extend(c.samples);
    }
    t.states = all_states.len() as u64;

    let mut o = String::new();
    o += &format!("evaluations\t{}\n", t.evaluations);
    o += &format!("traces\t{}\n", t.traces);
    o += &format!("transitions\t{}\n", t.transitions);
    o += &format!("states\t{}\n", t.states);
    o += &format!("states_capped\t{}\n", t.states_capped);
    o += &format!("timed_out\t{}\n", timed_out.load(SeqCst));
    for (fi, fam) in families.iter().enumerate() {
        o += &format!(
            "family\t{}\t{}\t{}\t{}\t{}\t{}\t{}\n",
            fam.name,
            fam.count,
            done[fi].load(SeqCst),
            spent_us[fi].load(SeqCst),
            esc(&fam.bounds),
            verdicts.get(&fi).map(|v| v.0).unwrap_or(0),
            verdicts.get(&fi).map(|v| v.1).unwrap_or(0)
        );
    }
    for (k, v) in &t.outcomes {
        o += &format!("outcome\t{}\t{}\n", esc(k), v);
    }
    for s in &t.samples {
        o += &format!("sample\t{}\n", esc(s));
    }
    for k in known_hits.into_inner().unwrap() {
        o += &format!("known\t{}\n", esc(&k));
    }
    let mut v = violations.into_inner().unwrap();
    v.sort_by_key(|v| (v.family, v.index));
    for v in &v {
        o += &format!("violation\t{}\t{}\t{}\n", v.family, v.index, esc(&v.message));
    }
    std::fs::write(out_path, o).expect("write child result");
    0
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}

fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => (),
            }
        } else {
            o.push(c)
        }
    }
    o
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\r' => o += "\\r",
            '\t' => o += "\\t",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Setup {
    pub property: String,
    pub tier: Tier,
    pub seed: u64,
    pub root: PathBuf, // /verif
}

const HANG_MS: u64 = 90_000;
const CONFIRM_S: u64 = 120;
const RSS_LIMIT: u64 = 20 << 30;

fn rss(pid: u32) -> u64 {
    std::fs::read_to_string(format!("/proc/{}/statm", pid))
        .ok()
        .and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()))
        .unwrap_or(0)
        * 4096
}

/// Re-run one execution on its own; Some(message) if it fails again.
fn confirm(s: &Setup, fam: u64, idx: u64) -> Option<String> {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe)
        .args(["one", &s.property, s.tier.name(), &fam.to_string(), &idx.to_string()])
        .env("RUST_BACKTRACE", "0")
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let t0 = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(st)) => {
                let out = c.wait_with_output().map(|o| String::from_utf8_lossy(&o.stdout).to_string()).unwrap_or_default();
                return match (st.code(), st.signal()) {
                    (Some(0), _) => None,
                    (Some(1), _) => Some(out.trim().to_string()),
                    (Some(2), _) => None,
                    (code, sig) => Some(format!("process died: code {:?} signal {:?} (abort, stack overflow or out of memory)", code, sig)),
                };
            }
            Ok(None) => {
                if t0.elapsed().as_secs() > CONFIRM_S {
                    let _ = c.kill();
                    let _ = c.wait();
                    return Some(format!("does not terminate within {} s", CONFIRM_S));
                }
                std::thread::sleep(Duration::from_millis(20));
            }
            Err(_) => return None,
        }
    }
}

/// Supervise the exploration. Returns the exit code.
pub fn supervise(s: &Setup, families: &[Family], level: &str, rule: &str, assumptions: &[&str], budget: Duration) -> i32 {
    let t0 = Instant::now();
    let scratch = s.root.join("scratch").join(format!("{}-{}", s.property, std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch");
    let slot_path = scratch.join("slots");
    let out_path = scratch.join("out");
    let _ = std::fs::remove_file(&slot_path);
    let slots = Slots::map(&slot_path);
    let exe = std::env::current_exe().unwrap();
    let mut child = Command::new(exe)
        .args([
            "child",
            &s.property,
            s.tier.name(),
            slot_path.to_str().unwrap(),
            out_path.to_str().unwrap(),
            &budget.as_secs().to_string(),
        ])
        .env("RUST_BACKTRACE", "0")
        .env("MC_SCRATCH", &scratch)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn child");
    let mut fault: Option<&str> = None;
    let status = loop {
        if let Ok(Some(st)) = child.try_wait() {
            break Some(st);
        }
        let now = now_ms();
        if slots.active().iter().any(|(_, _, t)| now.saturating_sub(*t) > HANG_MS) {
            fault = Some("hang");
        } else if rss(child.id()) > RSS_LIMIT {
            fault = Some("memory");
        }
        if fault.is_some() {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(50));
    };
    let mut violations: Vec<Violation> = vec![];
    let mut evaluations = 0;
    let mut traces = 0;
    let mut transitions = 0;
    let mut states = 0;
    let mut states_capped = false;
    let mut timed_out = false;
    let mut fams = vec![];
    let mut outcomes = vec![];
    let mut samples = vec![];
    let mut known_hit: Vec<String> = vec![];
    let mut engine_error: Option<String> = None;
    let ok = status.map(|st| st.success()).unwrap_or(false);
    if ok {
        let text = std::fs::read_to_string(&out_path).unwrap_or_default();
        if text.is_empty() {
            engine_error = Some("no result from the exploration".into());
        }
        for line in text.lines() {
            let f: Vec<&str> = line.split('\t').collect();
            match f[0] {
                "evaluations" => evaluations = f[1].parse().unwrap(),
                "traces" => traces = f[1].parse().unwrap(),
                "transitions" => transitions = f[1].parse().unwrap(),
                "states" => states = f[1].parse::<u64>().unwrap(),
                "states_capped" => states_capped = f[1] == "true",
                "timed_out" => timed_out = f[1] == "true",
                "family" => fams.push((
                    f[1].to_string(),
                    f[2].parse::<u64>().unwrap(),
                    f[3].parse::<u64>().unwrap(),
                    f[4].parse::<u64>().unwrap(),
                    unesc(f[5]),
                    f[6].to_string(),
                    f[7].to_string(),
                )),
                "outcome" => outcomes.push((unesc(f[1]), f[2].parse::<u64>().unwrap())),
                "known" => known_hit.push(unesc(f[1])),
                "sample" => samples.push(unesc(f[1])),
                "violation" => violations.push(Violation {
                    family: f[1].parse().unwrap(),
                    index: f[2].parse().unwrap(),
                    message: unesc(f[3]),
                }),
                _ => (),
            }
        }
    } else {
        // the process died, hung or grew without bound: find the execution that does it
        let mut suspects = slots.active();
        suspects.sort();
        for (fam, idx, _) in &suspects {
            if let Some(m) = confirm(s, *fam, *idx) {
                violations.push(Violation {
                    family: *fam as usize,
                    index: *idx,
                    message: m,
                });
                break;
            }
        }
        evaluations = 0;
        if violations.is_empty() {
            engine_error = Some(format!(
                "exploration ended abnormally ({:?}, {:?}) and none of the {} executions in flight fails on its own",
                fault, status, suspects.len()
            ));
        }
    }
    // known findings (an execution that kills the process is only attributed here)
    let known = load_known(&s.root, &s.property);
    let mut fresh: Vec<&Violation> = vec![];
    for v in &violations {
        match known_as(&known, &families[v.family], v.index, &v.message) {
            Some(k) => known_hit.push(k.2.clone()),
            None => fresh.push(v),
        }
    }
    known_hit.sort();
    known_hit.dedup();
    for k in &known_hit {
        println!("KNOWN-FINDING: property={} {}", s.property, k);
    }

    let wall = t0.elapsed().as_secs_f64();
    let exhaustive = ok && !timed_out && violations.is_empty() && fams.iter().all(|f| f.1 == f.2);

    // evidence
    let mut e = String::from("{\n");
    e += &format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n", json(&s.property), json(s.tier.name()), s.seed, json(level));
    e += " \"coverage\": {\n";
    e += &format!("  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n", states, transitions, traces);
    e += &format!("  \"executions\": {},\n  \"exhaustive\": {},\n  \"states_count_capped\": {},\n  \"time_cap_hit\": {},\n", evaluations, exhaustive, states_capped, timed_out);
    e += &format!("  \"rule\": {},\n", json(rule));
    e += "  \"families\": [\n";
    for (i, f) in fams.iter().enumerate() {
        e += &format!(
            "   {{\"name\": {}, \"space\": {}, \"explored\": {}, \"accepted\": {}, \"refused\": {}, \"cpu_s\": {:.2}, \"bounds\": {}}}{}\n",
            json(&f.0), f.1, f.2, f.5, f.6, f.3 as f64 / 1e6, json(&f.4), if i + 1 < fams.len() { "," } else { "" }
        );
    }
    e += "  ],\n  \"outcomes\": {\n";
    for (i, (k, v)) in outcomes.iter().enumerate() {
        e += &format!("   {}: {}{}\n", json(k), v, if i + 1 < outcomes.len() { "," } else { "" });
    }
    e += "  },\n  \"samples\": [\n";
    for (i, x) in samples.iter().enumerate() {
        e += &format!("   {}{}\n", json(x), if i + 1 < samples.len() { "," } else { "" });
    }
    e += "  ]\n },\n";
    e += &format!(" \"assumptions\": [{}],\n", assumptions.iter().map(|a| json(a)).collect::<Vec<_>>().join(", "));
    e += &format!(" \"known_findings\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", known_hit.iter().map(|k| json(k)).collect::<Vec<_>>().join(", "), wall, fresh.len());
    let evdir = s.root.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(evdir.join(format!("{}.json", s.property)), e).expect("write evidence");
    let _ = std::fs::remove_dir_all(&scratch);

    println!(
        "{} {}: {} executions, {} states, {} transitions, {} traces, {} outcomes, exhaustive={} wall={:.1}s",
        s.property, s.tier.name(), evaluations, states, transitions, traces, outcomes.len(), exhaustive, wall
    );
    if let Some(v) = fresh.first() {
        let dir = s.root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}-{}.txt", s.property, families[v.family].name.replace(' ', "_"), v.index));
        let body = format!(
            "property={}\ntier={}\nfamily={}\nindex={}\n# replay with: cd {} && ./run.sh replay {}\n\n{}\n",
            s.property, s.tier.name(), families[v.family].name, v.index, s.root.display(), path.display(), v.message
        );
        std::fs::write(&path, body).expect("write replay");
        for v in fresh.iter().take(3) {
            let short: String = v.message.chars().take(1500).collect();
            println!("{}[{}]: {}", families[v.family].name, v.index, short);
        }
        println!("VIOLATION property={} replay={}", s.property, path.display());
        let _ = std::io::stdout().flush();
        return 1;
    }
    if let Some(e) = engine_error {
        println!("ENGINE ERROR: {}", e);
        return 2;
    }
    0
}

/// known findings of a property: (family[index prefix, message substring, description)
pub type Known = (String, String, String);

fn known_as<'k>(known: &'k [Known], f: &Family, i: u64, message: &str) -> Option<&'k Known> {
    let sig = format!("{}[{}]", f.name, i);
    known.iter().find(|k| sig.starts_with(k.0.as_str()) && message.contains(k.1.as_str()))
}

pub fn load_known(root: &Path, property: &str) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(root.join("known_findings.txt")) {
        for line in s.lines() {
            // known: property=C01 | <signature prefix> | <message substring> | <what fails>
            if let Some(rest) = line.strip_prefix("known: ") {
                let f: Vec<&str> = rest.split(" | ").collect();
                if f.len() == 4 && f[0] == format!("property={}", property) {
                    v.push((f[1].to_string(), f[2].to_string(), f[3].to_string()));
                }
            }
        }
    }
    v
}

/// decode an index in mixed radix (least significant first)
pub fn digits(mut i: u64, radices: &[u64]) -> Vec<usize> {
    radices
        .iter()
        .map(|r| {
            let d = i % r;
            i /= r;
            d as usize
        })
        .collect()
}

pub fn product(radices: &[u64]) -> u64 {
    radices.iter().product()
}

/// number of words of length 0..=n over k letters
pub fn words_count(k: u64, n: u32) -> u64 {
    (0..=n).map(|l| k.pow(l)).sum()
}

/// the i-th word (shortest first) over k letters
pub fn word(mut i: u64, k: u64) -> Vec<usize> {
    let mut len = 0u32;
    while i >= k.pow(len) {
        i -= k.pow(len);
        len += 1;
    }
    let mut w = vec![0; len as usize];
    for d in w.iter_mut().rev() {
        *d = (i % k) as usize;
        i /= k;
    }
    w
}

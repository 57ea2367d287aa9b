//! Exploration framework: enumerates a bounded space in worker processes, runs
//! every case on the real code, and turns what it saw into a verdict and an
//! evidence file.
use serde_json::{json, Value};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a single execution reports besides its verdict.
#[derive(Default)]
pub struct Obs {
    /// states of the reference model (or of the explored graph) visited by this case
    pub states: u64,
    /// transitions taken by this case
    pub transitions: u64,
    /// executions of the implementation compared with the model in this case
    pub traces: u64,
    pub outcome: Option<u64>,
}

impl Obs {
    pub fn outcome<H: Hash>(&mut self, h: H) {
        self.outcome = Some(hash(h));
    }
}

pub fn hash<H: Hash>(h: H) -> u64 {
    let mut s = rustc_hash::FxHasher::default();
    h.hash(&mut s);
    s.finish()
}

pub type Run = fn(&str, &[&str], &mut Obs) -> Result<(), String>;

pub struct Check {
    pub id: &'static str,
    pub enumerate: fn(&mut Ctx),
    pub run: Run,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// longest time one case may take before it counts as a hang
    pub hang_s: u64,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: String,
    pub parts: Vec<String>,
    pub msg: String,
}

pub struct Ctx {
    pub tier: Tier,
    pub k: u64,
    pub n: u64,
    idx: u64,
    run: Run,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub cases: u64,
    distinct: HashSet<u64>,
    samples: Vec<Value>,
    viols: Vec<Viol>,
    kept: Vec<Viol>,
    nviol: u64,
    /// when the first violation was seen
    since: Option<std::time::Instant>,
    bounds: Vec<String>,
    slot: Slot,
    replaying: bool,
    /// the findings on record, and whether one was met
    known: Vec<(String, bool)>,
}

const SLOT: usize = 1 << 16;
struct Slot {
    p: *mut u8,
    seq: u64,
}
extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}
impl Slot {
    fn open(path: &Path) -> Slot {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
        f.set_len(SLOT as u64).unwrap();
        let p = unsafe { mmap(std::ptr::null_mut(), SLOT, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1);
        Slot { p, seq: 0 }
    }
    fn none() -> Slot {
        Slot { p: std::ptr::null_mut(), seq: 0 }
    }
    fn begin(&mut self, kind: &str, parts: &[&str]) {
        if self.p.is_null() {
            return;
        }
        self.seq += 1;
        unsafe {
            let mut o = 32;
            let mut put = |b: &[u8]| {
                let l = b.len().min(SLOT - 8 - o);
                std::ptr::copy_nonoverlapping((l as u32).to_le_bytes().as_ptr(), self.p.add(o), 4);
                std::ptr::copy_nonoverlapping(b.as_ptr(), self.p.add(o + 4), l);
                o += 4 + l;
                o < SLOT - 64
            };
            let mut cnt = 1u64;
            put(kind.as_bytes());
            for p in parts {
                if !put(p.as_bytes()) {
                    break;
                }
                cnt += 1;
            }
            (self.p.add(16) as *mut u64).write_volatile(cnt);
            (self.p as *mut u64).write_volatile(self.seq);
            (self.p.add(8) as *mut u64).write_volatile(1);
        }
    }
    fn end(&mut self) {
        if self.p.is_null() {
            return;
        }
        unsafe { (self.p.add(8) as *mut u64).write_volatile(0) }
    }
    fn read(&self) -> (u64, bool) {
        unsafe { ((self.p as *mut u64).read_volatile(), (self.p.add(8) as *mut u64).read_volatile() == 1) }
    }
    fn case(&self) -> (String, Vec<String>) {
        unsafe {
            let cnt = (self.p.add(16) as *mut u64).read_volatile();
            let mut o = 32;
            let mut v = vec![];
            for _ in 0..cnt {
                let mut l = [0u8; 4];
                std::ptr::copy_nonoverlapping(self.p.add(o), l.as_mut_ptr(), 4);
                let l = u32::from_le_bytes(l) as usize;
                let s = std::slice::from_raw_parts(self.p.add(o + 4), l);
                v.push(String::from_utf8_lossy(s).into_owned());
                o += 4 + l;
            }
            let k = v.remove(0);
            (k, v)
        }
    }
}

thread_local! {
    static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    if std::env::var("MC_LOUD").is_ok() {
        return;
    }
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("panic: {m} [{l}]"));
    }));
}
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}
/// Runs `f`, giving the panic message if it panics.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

impl Ctx {
    fn new(id: &str, tier: Tier, k: u64, n: u64, run: Run, slot: Slot) -> Ctx {
        Ctx {
            known: known(id).into_iter().map(|k| (format!("[{}]", k.signature), false)).collect(),
            tier, k, n, idx: 0, run,
            states: 0, transitions: 0, traces: 0, cases: 0,
            distinct: Default::default(), samples: vec![], viols: vec![], kept: vec![], nviol: 0, since: None, bounds: vec![],
            slot, replaying: false,
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// Takes the next index of the enumeration; true if this worker executes it.
    pub fn turn(&mut self) -> bool {
        let m = self.idx % self.n == self.k;
        self.idx += 1;
        // with a violation at hand, the rest of the enumeration need not be done
        m && self.since.map_or(true, |t| t.elapsed().as_secs() < 60)
    }
    pub fn violated(&self) -> bool {
        self.nviol > 0
    }
    /// Describes a bound that this enumeration covers completely (worker 0 keeps it).
    pub fn bound(&mut self, s: impl Into<String>) {
        if self.k == 0 {
            if std::env::var("MC_TIMES").is_ok() {
                eprintln!("{} cases", self.idx);
            }
            self.bounds.push(s.into());
        }
    }
    pub fn case(&mut self, kind: &str, parts: &[&str]) {
        if self.turn() {
            self.exec(kind, parts);
        }
    }
    pub fn exec(&mut self, kind: &str, parts: &[&str]) {
        self.slot.begin(kind, parts);
        let mut obs = Obs::default();
        let run = self.run;
        let r = match catch_unwind(AssertUnwindSafe(|| run(kind, parts, &mut obs))) {
            Ok(r) => r,
            Err(_) => Err(last_panic()),
        };
        self.slot.end();
        self.record(kind, parts, obs, r);
    }
    /// Records a case that was executed by the caller (as part of a batch).
    pub fn record(&mut self, kind: &str, parts: &[&str], obs: Obs, r: Result<(), String>) {
        self.cases += 1;
        self.states += obs.states;
        self.transitions += obs.transitions;
        self.traces += obs.traces;
        if let Some(o) = obs.outcome {
            if self.distinct.len() < 4_000_000 {
                self.distinct.insert(o);
            }
        }
        // keep a few samples, spread over the run
        if self.samples.len() < 4 && self.cases.is_power_of_two() && self.cases >= 16 {
            let parts: Vec<String> = parts.iter().map(|p| clip(p, 200)).collect();
            self.samples.push(json!({"kind": kind, "case": parts}));
        }
        if let Err(msg) = r {
            // a finding on record is kept once, so that it hides no other violation
            let on_record = self.known.iter_mut().find(|k| k.0.len() > 2 && msg.contains(&k.0));
            if let (Some(k), false) = (on_record, self.replaying) {
                if !k.1 {
                    k.1 = true;
                    self.kept.push(Viol { kind: kind.into(), parts: parts.iter().map(|s| s.to_string()).collect(), msg });
                }
                return;
            }
            self.nviol += 1;
            self.since.get_or_insert_with(std::time::Instant::now);
            self.viols.push(Viol { kind: kind.into(), parts: parts.iter().map(|s| s.to_string()).collect(), msg });
            if self.viols.len() > 64 {
                self.viols.sort_by_key(|v| v.parts.iter().map(|p| p.len()).sum::<usize>());
                self.viols.truncate(32);
            }
            if self.replaying {
                println!("{}", self.viols.last().unwrap().msg);
            }
        }
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}… ({} bytes)", &s[..e], s.len())
}

pub fn worker(c: &Check, tier: Tier, k: u64, n: u64, out: &Path) {
    quiet_panics();
    let lim = [4u64 << 30, 4u64 << 30];
    unsafe { setrlimit(9, &lim) };
    let slot = Slot::open(&out.join(format!("slot{k}")));
    let mut ctx = Ctx::new(c.id, tier, k, n, c.run, slot);
    (c.enumerate)(&mut ctx);
    let v = json!({
        "states": ctx.states, "transitions": ctx.transitions, "traces": ctx.traces, "cases": ctx.cases,
        "enumerated": ctx.idx, "samples": ctx.samples, "nviol": ctx.nviol, "bounds": ctx.bounds,
        "viols": ctx.viols.iter().chain(&ctx.kept).map(|v| json!([v.kind, v.parts, v.msg])).collect::<Vec<_>>(),
    });
    let mut h = Vec::with_capacity(ctx.distinct.len() * 8);
    for d in &ctx.distinct {
        h.extend_from_slice(&d.to_le_bytes());
    }
    std::fs::write(out.join(format!("hash{k}")), h).unwrap();
    std::fs::write(out.join(format!("res{k}")), v.to_string()).unwrap();
}

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| "/verif".into())
}

pub struct Known {
    pub property: String,
    pub signature: String,
    pub what: String,
}
pub fn known(property: &str) -> Vec<Known> {
    let p = verif_dir().join("known-findings.txt");
    let s = std::fs::read_to_string(p).unwrap_or_default();
    s.lines()
        .filter_map(|l| l.strip_prefix("known: property=")?.split_once(' '))
        .filter(|(p, _)| *p == property)
        .filter_map(|(p, r)| {
            let (sig, what) = r.strip_prefix("signature=")?.split_once(' ')?;
            Some(Known { property: p.into(), signature: sig.into(), what: what.into() })
        })
        .collect()
}

/// Runs a check in `n` worker processes. Returns the process exit code.
pub fn check(c: &Check, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let n = std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 16)
    });
    let out = std::env::temp_dir().join(format!("mc-{}-{}", c.id, std::process::id()));
    std::fs::create_dir_all(&out).unwrap();
    let exe = std::env::current_exe().unwrap();
    let tn = if tier == Tier::Quick { "quick" } else { "thorough" };
    let mut ch: Vec<_> = (0..n)
        .map(|k| {
            let p = std::process::Command::new(&exe)
                .args(["worker", c.id, tn, &k.to_string(), &n.to_string(), out.to_str().unwrap()])
                .spawn()
                .unwrap();
            (k, p, Slot::open(&out.join(format!("slot{k}"))), (0u64, Instant::now()), false)
        })
        .collect();
    let mut viols: Vec<Viol> = vec![];
    let mut broken = None;
    loop {
        let mut alive = false;
        for (k, p, slot, last, done) in ch.iter_mut() {
            if *done {
                continue;
            }
            match p.try_wait().unwrap() {
                Some(st) => {
                    *done = true;
                    if !st.success() {
                        let (_, busy) = slot.read();
                        if busy {
                            let (kind, parts) = slot.case();
                            viols.push(Viol { kind, parts, msg: format!("the process died: {st}") });
                        } else {
                            broken = Some(format!("worker {k} ended with {st}"));
                        }
                    }
                }
                None => {
                    alive = true;
                    let (s, busy) = slot.read();
                    if s != last.0 || !busy {
                        *last = (s, Instant::now());
                    } else if last.1.elapsed() > Duration::from_secs(c.hang_s) {
                        let (kind, parts) = slot.case();
                        viols.push(Viol { kind, parts, msg: format!("no answer within {} s", c.hang_s) });
                        let _ = p.kill();
                        let _ = p.wait();
                        *done = true;
                    }
                }
            }
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut sums = [0u64; 4];
    let mut enumerated = 0;
    let mut nviol = viols.len() as u64;
    let mut samples = vec![];
    let mut bounds = vec![];
    let mut distinct: HashSet<u64> = Default::default();
    for k in 0..n {
        let Ok(s) = std::fs::read_to_string(out.join(format!("res{k}"))) else { continue };
        let v: Value = serde_json::from_str(&s).unwrap();
        for (i, f) in ["states", "transitions", "traces", "cases"].iter().enumerate() {
            sums[i] += v[*f].as_u64().unwrap();
        }
        enumerated = enumerated.max(v["enumerated"].as_u64().unwrap());
        nviol += v["nviol"].as_u64().unwrap();
        if samples.len() < 8 {
            samples.extend(v["samples"].as_array().unwrap().iter().cloned());
        }
        bounds.extend(v["bounds"].as_array().unwrap().iter().cloned());
        for x in v["viols"].as_array().unwrap() {
            viols.push(Viol {
                kind: x[0].as_str().unwrap().into(),
                parts: x[1].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect(),
                msg: x[2].as_str().unwrap().into(),
            });
        }
        let h = std::fs::read(out.join(format!("hash{k}"))).unwrap();
        for b in h.chunks(8) {
            distinct.insert(u64::from_le_bytes(b.try_into().unwrap()));
        }
    }
    for k in 0..n {
        for f in ["slot", "res", "hash"] {
            let _ = std::fs::remove_file(out.join(format!("{f}{k}")));
        }
    }
    let _ = std::fs::remove_dir(&out);
    if viols.is_empty() {
        if let Some(b) = broken {
            eprintln!("check error: {b}");
            return 2;
        }
        if sums[3] != enumerated || sums[2] == 0 {
            eprintln!("check error: {} of {} cases executed, {} compared", sums[3], enumerated, sums[2]);
            return 2;
        }
    }
    // known findings are identified by the signature in the message
    let kn = known(c.id);
    let mut hit: Vec<u64> = vec![0; kn.len()];
    viols.retain(|v| {
        for (i, k) in kn.iter().enumerate() {
            if !k.signature.is_empty() && v.msg.contains(&format!("[{}]", k.signature)) {
                hit[i] += 1;
                return false;
            }
        }
        true
    });
    for (k, h) in kn.iter().zip(&hit) {
        if *h > 0 {
            println!("KNOWN-FINDING: property={} {}", k.property, k.what);
        }
    }
    viols.sort_by_key(|v| (v.parts.iter().map(|p| p.len()).sum::<usize>(), v.parts.clone()));
    samples.truncate(8);
    let ev = json!({
        "property": c.id,
        "tier": tn,
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        "level": "model_checking",
        "coverage": {
            "states": sums[0], "transitions": sums[1], "traces_validated_against_impl": sums[2],
            "cases_enumerated": enumerated,
            "distinct_outcomes": distinct.len(),
            "exhaustive": viols.is_empty(),
            "bounds": bounds, "rule": c.rule, "samples": samples,
        },
        "assumptions": c.assumptions,
        "violations": viols.len(),
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
    });
    let ed = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&ed);
    std::fs::write(ed.join(format!("{}.json", c.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    println!(
        "{} {}: {} states, {} transitions, {} executions compared, {} cases, {} distinct outcomes, {:.1} s",
        c.id, tn, sums[0], sums[1], sums[2], enumerated, distinct.len(), t0.elapsed().as_secs_f64()
    );
    if viols.is_empty() {
        return 0;
    }
    let rd = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&rd);
    println!("{} violations in all", nviol);
    for (i, v) in viols.iter().take(std::env::var("MC_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(5)).enumerate() {
        let p = rd.join(format!("{}-{}.json", c.id, i));
        let j = json!({"property": c.id, "kind": v.kind, "parts": v.parts, "message": v.msg,
            "replay_with": format!("./run.sh replay {}", p.display())});
        std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap() + "\n").unwrap();
        println!("  {} {:?}", v.kind, v.parts.iter().map(|p| clip(p, 300)).collect::<Vec<_>>());
        println!("  {}", clip(&v.msg, 1500));
        println!("VIOLATION property={} replay={}", c.id, p.display());
    }
    let _ = std::io::stdout().flush();
    1
}

pub fn replay(c: &Check, v: &Value) -> i32 {
    quiet_panics();
    let parts: Vec<String> = v["parts"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect();
    let parts: Vec<&str> = parts.iter().map(|s| s.as_str()).collect();
    let mut ctx = Ctx::new(c.id, Tier::Quick, 0, 1, c.run, Slot::none());
    ctx.replaying = true;
    ctx.exec(v["kind"].as_str().unwrap(), &parts);
    if ctx.nviol > 0 {
        println!("the case still fails");
        1
    } else {
        println!("the case passes");
        0
    }
}

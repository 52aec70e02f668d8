//! Exhaustive exploration of index-addressed, finite spaces on all cores, with a watchdog for
//! hangs, a supervisor for crashes of the whole process, and evidence/replay files.
use crate::session::{default_init, Dead, Session};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashSet;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const URI: &str = "file:///mc/doc.hir";
/// A single poll of the server that takes this long counts as a hang (a normal one: < 1 ms).
const HANG: Duration = Duration::from_secs(25);
const MAX_THREADS: usize = 64;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub type Verdict = Result<(), String>;
impl From<Dead> for String {
    fn from(d: Dead) -> String {
        d.to_string()
    }
}

pub type CaseFn = Box<dyn Fn(&mut Ctx, u64) -> Verdict + Send + Sync>;
pub struct Space {
    pub name: String,
    pub size: u64,
    /// What the space contains, for the evidence file.
    pub what: String,
    pub run: CaseFn,
}
impl Space {
    pub fn new(
        name: impl Into<String>,
        what: impl Into<String>,
        size: u64,
        run: impl Fn(&mut Ctx, u64) -> Verdict + Send + Sync + 'static,
    ) -> Space {
        Space { name: name.into(), size, what: what.into(), run: Box::new(run) }
    }
}

#[derive(Default, Clone)]
pub struct Counts {
    /// Cases run.
    pub cases: u64,
    /// Messages delivered to the real server.
    pub transitions: u64,
    /// Distinct explored states (documents, histories or schedule states), by hash.
    pub states: u64,
    /// Cases in which an answer of the real server was compared with the reference.
    pub compared: u64,
    /// Individual comparisons.
    pub comparisons: u64,
    /// Cases outside the domain the reference speaks about (only survival is checked).
    pub outside: u64,
}

thread_local! {
    static SLOT: RefCell<Option<usize>> = const { RefCell::new(None) };
}
static BEATS: [AtomicU64; MAX_THREADS] = {
    #[allow(clippy::declare_interior_mutable_const)]
    const Z: AtomicU64 = AtomicU64::new(0);
    [Z; MAX_THREADS]
};
static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
fn now_ms() -> u64 {
    START.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}
/// Called whenever control enters the server.
pub fn heartbeat() {
    SLOT.with(|s| {
        if let Some(i) = *s.borrow() {
            BEATS[i].store(now_ms(), Relaxed)
        }
    })
}

/// What one worker thread holds on to between cases.
pub struct Ctx {
    sess: Option<Session>,
    uses: u32,
    version: i64,
    pub c: Counts,
    seen: HashSet<u64>,
    pub samples: Vec<Value>,
    pub sample_now: bool,
    pub init: Value,
    pub fresh: bool,
}
impl Ctx {
    pub fn new() -> Ctx {
        Ctx {
            sess: None,
            uses: 0,
            version: 0,
            c: Counts::default(),
            seen: HashSet::new(),
            samples: vec![],
            sample_now: false,
            init: default_init(),
            fresh: true,
        }
    }
    /// The reusable, initialised server of this thread.
    pub fn server(&mut self) -> Result<&mut Session, Dead> {
        if self.sess.as_ref().map_or(true, |s| s.dead.is_some()) {
            self.retire();
            let (mut s, _) = Session::with_init(self.init.clone())?;
            s.inbox.clear();
            self.sess = Some(s);
            self.uses = 0;
        }
        Ok(self.sess.as_mut().unwrap())
    }
    pub fn reset(&mut self) {
        self.retire();
        self.uses = 0;
    }
    fn retire(&mut self) {
        if let Some(s) = self.sess.take() {
            self.c.transitions += s.delivered;
        }
    }
    /// Keeps a session of its own making, so that its messages end up in the counts and replays.
    pub fn adopt(&mut self, s: Session) {
        self.retire();
        self.sess = Some(s);
        self.uses = 0;
    }
    pub fn set_init(&mut self, init: Value) {
        if self.init != init {
            self.init = init;
            self.reset();
        }
    }
    /// Makes `text` the current text of URI and returns the diagnostics published for it.
    pub fn load(&mut self, text: &str) -> Result<Vec<Value>, String> {
        if self.uses >= 400 {
            self.retire();
        }
        self.version += 1;
        let v = self.version;
        self.server()?;
        self.uses += 1;
        let first = self.uses == 1;
        let s = self.server()?;
        s.inbox.clear();
        s.sent.clear();
        if first {
            s.open(URI, text, v)?;
        } else {
            s.change(URI, text, v)?;
        }
        let d = s.take_diagnostics();
        if d.len() != 1 {
            return Err(format!("{} diagnostics notifications after one change", d.len()));
        }
        if d[0]["uri"] != URI || d[0]["version"] != v {
            return Err(format!("diagnostics carry uri {} version {}, expected version {v}", d[0]["uri"], d[0]["version"]));
        }
        self.state(text);
        d[0]["diagnostics"].as_array().cloned().ok_or_else(|| "diagnostics are not a list".into())
    }
    pub fn state(&mut self, key: &str) {
        use std::hash::{Hash, Hasher};
        #[allow(deprecated)]
        let mut h = std::hash::SipHasher::new();
        key.hash(&mut h);
        if self.seen.len() < 4_000_000 {
            self.seen.insert(h.finish());
        }
    }
    pub fn compared(&mut self, n: u64) {
        self.c.comparisons += n;
        if n > 0 {
            self.c.compared += 1;
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if self.sample_now && self.samples.len() < 6 {
            self.samples.push(f());
        }
    }
    pub fn add_transitions(&mut self, n: u64) {
        self.c.transitions += n;
    }
}

/// Known findings: keys listed as "open: property=<id> key=<key> ..." and those met in this run.
static FINDINGS: Mutex<Vec<(String, String, bool)>> = Mutex::new(Vec::new());
fn read_findings(id: &str) {
    let text = std::fs::read_to_string("/verif/KNOWN_FINDINGS.txt").unwrap_or_default();
    let mut f = FINDINGS.lock().unwrap();
    f.clear();
    for l in text.lines() {
        let Some(r) = l.strip_prefix(&format!("open: property={id} key=")) else { continue };
        let (k, what) = r.split_once(' ').unwrap_or((r, ""));
        f.push((k.to_string(), what.to_string(), false));
    }
}
/// A failure that is a violation unless exactly this kind of failure is a listed finding.
pub fn finding(key: &str, msg: String) -> Verdict {
    let mut f = FINDINGS.lock().unwrap();
    match f.iter_mut().find(|x| x.0 == key) {
        Some(x) => {
            x.2 = true;
            Ok(())
        }
        None => Err(msg),
    }
}

#[derive(Clone)]
pub struct Violation {
    pub space: String,
    pub idx: u64,
    pub msg: String,
    pub sent: Vec<Value>,
    pub needs_history: bool,
}

pub struct Outcome {
    pub counts: Counts,
    pub spaces: Vec<Value>,
    pub samples: Vec<Value>,
    pub violations: Vec<Violation>,
}

/// Directory for files the server is to find, made and removed by the outermost process.
pub fn scratch() -> String {
    std::env::var("MC_SCRATCH").expect("MC_SCRATCH is set by main")
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16)
}

/// Where a child notes what each of its threads is doing, for the supervisor.
struct Progress(std::fs::File);
impl Progress {
    fn open(path: &str) -> Progress {
        Progress(std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap())
    }
    fn note(&self, slot: usize, space: u64, idx: u64) {
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&(space + 1).to_le_bytes());
        b[8..].copy_from_slice(&idx.to_le_bytes());
        let _ = self.0.write_all_at(&b, slot as u64 * 16);
    }
    fn read(path: &str) -> Vec<(u64, u64)> {
        let Ok(d) = std::fs::read(path) else { return vec![] };
        d.chunks_exact(16)
            .filter_map(|c| {
                let s = u64::from_le_bytes(c[..8].try_into().unwrap());
                let i = u64::from_le_bytes(c[8..].try_into().unwrap());
                s.checked_sub(1).map(|s| (s, i))
            })
            .collect()
    }
}

/// Explores every case of every space.
fn explore(spaces: &[Space], progress: Option<&Progress>, on_hang: &(dyn Fn(&Space, u64) + Sync)) -> Outcome {
    let mut out = Outcome { counts: Counts::default(), spaces: vec![], samples: vec![], violations: vec![] };
    let n = threads();
    for (si, sp) in spaces.iter().enumerate() {
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let done = AtomicBool::new(false);
        let vio: Mutex<Vec<Violation>> = Mutex::new(vec![]);
        let merged: Mutex<(Counts, HashSet<u64>, Vec<Value>)> = Mutex::new(Default::default());
        let current: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(u64::MAX)).collect();
        let chunk = (sp.size / (n as u64 * 64)).clamp(1, 64);
        std::thread::scope(|sc| {
            let mut hs = vec![];
            for slot in 0..n {
                let (next, stop, vio, merged, current) = (&next, &stop, &vio, &merged, &current);
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(8 << 20)
                        .spawn_scoped(sc, move || {
                            SLOT.with(|s| *s.borrow_mut() = Some(slot));
                            let mut ctx = Ctx::new();
                            'outer: loop {
                                let a = next.fetch_add(chunk, Relaxed);
                                if a >= sp.size || stop.load(Relaxed) {
                                    break;
                                }
                                for i in a..(a + chunk).min(sp.size) {
                                    if stop.load(Relaxed) {
                                        break 'outer;
                                    }
                                    current[slot].store(i, Relaxed);
                                    BEATS[slot].store(now_ms(), Relaxed);
                                    if let Some(p) = progress {
                                        p.note(slot, si as u64, i);
                                    }
                                    ctx.c.cases += 1;
                                    ctx.sample_now = i == 0 || i == sp.size / 2 || i == sp.size - 1;
                                    if let Err(msg) = (sp.run)(&mut ctx, i) {
                                        // Confirm on a fresh server, which also gives a minimal replay.
                                        let mut c2 = Ctx::new();
                                        let r2 = (sp.run)(&mut c2, i);
                                        let (msg, sent, needs_history) = match r2 {
                                            Err(m) => (m, c2.sess.map(|s| s.sent).unwrap_or_default(), false),
                                            Ok(()) => (msg, ctx.sess.take().map(|s| s.sent).unwrap_or_default(), true),
                                        };
                                        vio.lock().unwrap().push(Violation { space: sp.name.clone(), idx: i, msg, sent, needs_history });
                                        stop.store(true, Relaxed);
                                        break 'outer;
                                    }
                                }
                            }
                            current[slot].store(u64::MAX, Relaxed);
                            ctx.retire();
                            let mut m = merged.lock().unwrap();
                            m.0.cases += ctx.c.cases;
                            m.0.transitions += ctx.c.transitions;
                            m.0.compared += ctx.c.compared;
                            m.0.comparisons += ctx.c.comparisons;
                            m.0.outside += ctx.c.outside;
                            m.1.extend(ctx.seen.drain());
                            m.2.append(&mut ctx.samples);
                        })
                        .unwrap(),
                );
            }
            // Watchdog
            let (done, current) = (&done, &current);
            sc.spawn(move || {
                while !done.load(Relaxed) {
                    std::thread::sleep(Duration::from_millis(20));
                    for slot in 0..n {
                        let i = current[slot].load(Relaxed);
                        if i == u64::MAX {
                            continue;
                        }
                        let b = BEATS[slot].load(Relaxed);
                        if b != 0 && now_ms().saturating_sub(b) > HANG.as_millis() as u64 {
                            on_hang(sp, i);
                        }
                    }
                }
            });
            for h in hs {
                h.join().expect("worker thread of the harness failed");
            }
            done.store(true, Relaxed);
        });
        let (c, seen, samples) = merged.into_inner().unwrap();
        out.counts.cases += c.cases;
        out.counts.transitions += c.transitions;
        out.counts.compared += c.compared;
        out.counts.comparisons += c.comparisons;
        out.counts.outside += c.outside;
        out.counts.states += seen.len() as u64;
        out.spaces.push(json!({"space": sp.name, "contents": sp.what, "size": sp.size, "cases_run": c.cases,
            "states": seen.len(), "transitions": c.transitions, "compared_cases": c.compared, "comparisons": c.comparisons,
            "outside_domain": c.outside, "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0}));
        for s in samples.into_iter().take(3) {
            if out.samples.len() < 24 {
                out.samples.push(json!({"space": sp.name, "case": s}));
            }
        }
        eprintln!("  {:<34} {:>9} cases {:>9} states {:>10} messages {:>10} comparisons {:>7.2}s", sp.name, c.cases, seen.len(), c.transitions, c.comparisons, t0.elapsed().as_secs_f64());
        let v = vio.into_inner().unwrap();
        if !v.is_empty() {
            out.violations.extend(v);
            break;
        }
    }
    out
}

pub struct Check {
    pub id: &'static str,
    pub spaces: Vec<Space>,
    pub assumptions: Vec<String>,
}

fn replay_path(id: &str) -> String {
    let _ = std::fs::create_dir_all("/verif/replay");
    format!("/verif/replay/{id}.json")
}
fn write_replay(id: &str, tier: Tier, v: &Violation) -> String {
    let p = replay_path(id);
    let j = json!({"property": id, "tier": tier_name(tier), "space": v.space, "index": v.idx, "what": v.msg,
        "needs_preceding_cases": v.needs_history, "messages_sent": v.sent,
        "replay_with": format!("bash /verif/check.sh {id} replay {p}")});
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap());
    p
}
pub fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

/// Tells the supervisor that this process ended by the harness's own doing.
fn mark_done() {
    if let Ok(p) = std::env::var("MC_DONE") {
        let _ = std::fs::write(p, "done");
    }
}

/// The process that explores. Exit codes: 0 held, 1 violation, anything else: see supervisor.
pub fn child(check: Check, tier: Tier, progress: Option<String>, only: Option<(String, u64)>) -> i32 {
    let r = child_run(check, tier, progress, only);
    mark_done();
    r
}
fn child_run(check: Check, tier: Tier, progress: Option<String>, only: Option<(String, u64)>) -> i32 {
    limit_memory();
    let t0 = Instant::now();
    let id = check.id;
    read_findings(id);
    let prog = progress.map(|p| Progress::open(&p));
    if let Some((sname, idx)) = only {
        // Run a single case, e.g. to replay it.
        let Some(sp) = check.spaces.iter().find(|s| s.name == sname) else {
            eprintln!("no space {sname}");
            return 2;
        };
        SLOT.with(|s| *s.borrow_mut() = Some(0));
        let h = std::thread::Builder::new().stack_size(8 << 20);
        let r = std::thread::scope(|sc| {
            h.spawn_scoped(sc, || {
                let mut ctx = Ctx::new();
                let r = (sp.run)(&mut ctx, idx);
                if std::env::var("MC_VERBOSE").is_ok() {
                    if let Some(s) = &ctx.sess {
                        for m in &s.sent {
                            println!("> {m}");
                        }
                    }
                }
                r
            })
            .unwrap()
            .join()
        });
        return match r {
            Ok(Ok(())) => {
                println!("case {sname}#{idx}: holds");
                0
            }
            Ok(Err(m)) => {
                println!("case {sname}#{idx}: {m}");
                1
            }
            Err(_) => 3,
        };
    }
    let spaces = check.spaces;
    let on_hang = |sp: &Space, idx: u64| {
        let v = Violation {
            space: sp.name.clone(),
            idx,
            msg: format!("the server did not come back within {} s", HANG.as_secs()),
            sent: vec![],
            needs_history: false,
        };
        let p = write_replay(id, tier, &v);
        println!("{id}: {} #{}: {}", v.space, v.idx, v.msg);
        write_evidence(id, tier, &Outcome { counts: Counts { cases: 1, states: 1, transitions: 1, compared: 1, ..Default::default() }, spaces: vec![], samples: vec![json!(v.msg)], violations: vec![v] }, &[], t0.elapsed().as_secs_f64());
        println!("VIOLATION property={id} replay={p}");
        let _ = std::io::stdout().flush();
        mark_done();
        unsafe { libc_exit(1) };
    };
    let out = explore(&spaces, prog.as_ref(), &on_hang);
    write_evidence(id, tier, &out, &check.assumptions, t0.elapsed().as_secs_f64());
    if let Some(v) = out.violations.first() {
        let p = write_replay(id, tier, v);
        println!("{id}: {} #{}: {}", v.space, v.idx, v.msg);
        println!("VIOLATION property={id} replay={p}");
        return 1;
    }
    for (k, what, met) in FINDINGS.lock().unwrap().iter() {
        if *met {
            println!("KNOWN-FINDING: property={id} {k}: {what}");
        }
    }
    println!("{id} ({}): held on {} cases, {} states, {} messages, {} comparisons, {:.1} s", tier_name(tier), out.counts.cases, out.counts.states, out.counts.transitions, out.counts.comparisons, t0.elapsed().as_secs_f64());
    0
}

extern "C" {
    #[link_name = "_exit"]
    fn libc_exit(code: i32) -> !;
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}
fn limit_memory() {
    // RLIMIT_AS: a server that allocates without bound ends here instead of taking the machine down.
    let l = [24u64 << 30, 24u64 << 30];
    unsafe {
        setrlimit(9, &l);
    }
}

pub fn write_evidence(id: &str, tier: Tier, out: &Outcome, assumptions: &[String], wall: f64) {
    let _ = std::fs::create_dir_all("/verif/evidence");
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let c = &out.counts;
    let j = json!({
        "property": id, "tier": tier_name(tier), "seed": seed, "level": "model_checking",
        "coverage": {
            "states": c.states, "transitions": c.transitions,
            "traces_validated_against_impl": c.compared,
            "cases": c.cases, "comparisons": c.comparisons, "outside_domain": c.outside,
            "exhaustive": out.violations.is_empty(),
            "spaces": out.spaces, "samples": out.samples,
            "how": "Every case of each listed finite space was executed against the real server (its own main, driven in process through LSP messages under a controlled executor); states are distinct documents/histories/schedule states, transitions are messages or scheduling steps delivered to the server, traces_validated_against_impl are the cases in which the reference model's answers were compared with the server's."
        },
        "assumptions": assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": out.violations.len()
    });
    let _ = std::fs::write(format!("/verif/evidence/{id}.json"), serde_json::to_string_pretty(&j).unwrap());
}

/// Runs the child and turns a crash of the whole process into a verdict.
pub fn supervise(id: &str, tier: Tier, space_names: &[String]) -> i32 {
    let dir = std::env::temp_dir().join(format!("mc-{}-{}", id, std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let prog = dir.join("progress").to_string_lossy().to_string();
    let marker = dir.join("done").to_string_lossy().to_string();
    let exe = std::env::current_exe().unwrap();
    let run = |extra: &[String]| {
        let mut c = std::process::Command::new(&exe);
        c.arg("child").arg(id).arg(tier_name(tier)).args(extra).env("MC_DONE", &marker);
        let _ = std::fs::remove_file(&marker);
        unsafe {
            c.pre_exec(|| {
                // Die with the supervisor (PR_SET_PDEATHSIG, SIGKILL).
                prctl(1, 9, 0, 0, 0);
                Ok(())
            });
        }
        c.status()
    };
    let done = || std::path::Path::new(&marker).exists();
    let t0 = Instant::now();
    let st = run(&["--progress".into(), prog.clone()]);
    let code = match st {
        Ok(s) if s.code() == Some(0) && done() => 0,
        Ok(s) if s.code() == Some(1) && done() => 1,
        Ok(s) => {
            eprintln!("{id}: the exploring process ended with {:?} (signal {:?})", s.code(), s.signal());
            let mut verdict = 2;
            for (si, idx) in Progress::read(&prog) {
                let Some(name) = space_names.get(si as usize) else { continue };
                let r = run(&["--only".into(), name.clone(), idx.to_string()]);
                if let Ok(r) = r {
                    if r.signal().is_some() || !done() {
                        let v = Violation {
                            space: name.clone(),
                            idx,
                            msg: match r.signal() {
                                Some(s) => format!("the server process is killed by signal {s} on this case"),
                                None => format!("the server process ends itself (code {:?}) on this case", r.code()),
                            },
                            sent: vec![],
                            needs_history: false,
                        };
                        let p = write_replay(id, tier, &v);
                        println!("{id}: {} #{}: {}", v.space, v.idx, v.msg);
                        write_evidence(id, tier, &Outcome { counts: Counts { cases: 1, states: 1, transitions: 1, compared: 1, ..Default::default() }, spaces: vec![], samples: vec![json!(v.msg)], violations: vec![v] }, &[], t0.elapsed().as_secs_f64());
                        println!("VIOLATION property={id} replay={p}");
                        verdict = 1;
                        break;
                    }
                }
            }
            verdict
        }
        Err(e) => {
            eprintln!("{id}: cannot run: {e}");
            2
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}
extern "C" {
    fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

/// Mixed-radix digits of an index.
pub struct Dig(pub u64);
impl Dig {
    pub fn take(&mut self, n: usize) -> usize {
        let r = (self.0 % n as u64) as usize;
        self.0 /= n as u64;
        r
    }
    pub fn of<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.take(v.len());
        &v[i]
    }
}
/// Number of sequences over `k` symbols of length `min..=max`.
pub fn seq_count(k: u64, min: u32, max: u32) -> u64 {
    (min..=max).map(|l| k.pow(l)).sum()
}
/// The `idx`-th such sequence (shorter ones first).
pub fn seq_at(k: u64, min: u32, mut idx: u64) -> Vec<usize> {
    let mut l = min;
    while idx >= k.pow(l) {
        idx -= k.pow(l);
        l += 1;
    }
    let mut v = Vec::with_capacity(l as usize);
    for _ in 0..l {
        v.push((idx % k) as usize);
        idx /= k;
    }
    v
}

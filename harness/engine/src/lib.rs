//! A small choice-sequence property-testing engine: generation, integrated shrinking, replay,
//! crash/hang isolation in worker processes, distribution labels and evidence.
#![allow(clippy::new_without_default)]

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------------------------------------
// Randomness and choices

#[derive(Clone)]
pub struct Rng([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let result = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        result
    }
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for &b in data {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// A failed check: `sig` groups failures of one kind (used for known findings and shrinking).
#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

pub type R = Result<(), Fail>;

pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_owned(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !$cond { return $crate::fail($sig, format!($($arg)*)); }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $sig:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return $crate::fail($sig, format!("{}\n   got: {:?}\n  want: {:?}", format!($($arg)*), a, b));
        }
    }};
}

/// The generator handle given to every case. (Interior mutability, so draws can be nested in arguments.)
pub struct G {
    rng: RefCell<Option<Rng>>,
    replay: Vec<u64>,
    rec: RefCell<Vec<u64>>,
    size: u64,
    nontrivial: Cell<bool>,
    desc: RefCell<String>,
    labels: RefCell<Vec<String>>,
    discarded: Cell<bool>,
    scratch: RefCell<Option<PathBuf>>,
}

impl G {
    fn make(rng: Option<Rng>, replay: Vec<u64>) -> G {
        let mut g = G {
            rng: RefCell::new(rng),
            replay,
            rec: Default::default(),
            size: 0,
            nontrivial: Cell::new(false),
            desc: Default::default(),
            labels: Default::default(),
            discarded: Cell::new(false),
            scratch: Default::default(),
        };
        g.size = g.below(100) + 1;
        g
    }
    fn random(seed: u64) -> G {
        G::make(Some(Rng::new(seed)), vec![])
    }
    fn replay(choices: Vec<u64>) -> G {
        G::make(None, choices)
    }
    /// A stand-alone generator (fixed seed), for building fixtures.
    pub fn fixed(seed: u64) -> G {
        G::random(seed)
    }
    /// Draw an integer in 0..n; 0 is the simplest.
    pub fn below(&self, n: u64) -> u64 {
        let n = n.max(1);
        let mut rec = self.rec.borrow_mut();
        let v = match *self.rng.borrow_mut() {
            Some(ref mut r) => r.next() % n,
            None => {
                let i = rec.len();
                if i < self.replay.len() { self.replay[i] % n } else { 0 }
            },
        };
        rec.push(v);
        v
    }
    pub fn size(&self) -> usize {
        self.size as usize
    }
    /// Scale: an upper bound that grows with the case size, between lo and hi.
    pub fn scaled(&self, lo: usize, hi: usize) -> usize {
        lo + ((hi - lo) * self.size as usize) / 100
    }
    pub fn usize(&self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive range.
    pub fn range(&self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// A length between lo and hi, scaled by the case size.
    pub fn len(&self, lo: usize, hi: usize) -> usize {
        let hi = self.scaled(lo, hi).max(lo);
        lo + self.usize(hi - lo + 1)
    }
    pub fn bool(&self) -> bool {
        self.below(2) == 1
    }
    /// True with probability num/den; shrinks to false.
    pub fn chance(&self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&self, xs: &'a [T]) -> &'a T {
        let i = self.usize(xs.len());
        &xs[i]
    }
    /// Index chosen with the given weights; the first is the simplest.
    pub fn weighted(&self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.below(total);
        for (i, &w) in ws.iter().enumerate() {
            if v < w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
    pub fn shuffle<T>(&self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.usize(i + 1);
            xs.swap(i, j);
        }
    }
    pub fn u64(&self) -> u64 {
        let a = self.below(1 << 32);
        let b = self.below(1 << 32);
        (a << 32) | b
    }
    /// Record a description of the case (shown in samples and replay files, hashed for distinctness).
    pub fn note(&self, s: &str) {
        let mut desc = self.desc.borrow_mut();
        if !desc.is_empty() {
            desc.push('\n');
        }
        desc.push_str(s);
        if ECHO.load(Ordering::Relaxed) != 0 {
            println!("{}", s);
            let _ = std::io::stdout().flush();
        }
    }
    pub fn nontrivial(&self, yes: bool) {
        if yes {
            self.nontrivial.set(true);
        }
    }
    pub fn label(&self, s: &str) {
        self.labels.borrow_mut().push(s.to_owned());
    }
    pub fn label_if(&self, yes: bool, s: &str) {
        if yes {
            self.label(s);
        }
    }
    /// The case is outside the property's precondition; not counted as non-trivial.
    pub fn discard(&self) -> R {
        self.discarded.set(true);
        Ok(())
    }
    /// A scratch directory for this case, removed afterwards.
    pub fn scratch(&self) -> PathBuf {
        let mut s = self.scratch.borrow_mut();
        if let Some(ref p) = *s {
            return p.clone();
        }
        static N: AtomicU64 = AtomicU64::new(0);
        let p = scratch_base().join(format!("case-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch dir");
        *s = Some(p.clone());
        p
    }
}

impl Drop for G {
    fn drop(&mut self) {
        if let Some(p) = self.scratch.get_mut().take() {
            let _ = std::fs::remove_dir_all(p);
        }
    }
}

pub fn scratch_base() -> PathBuf {
    PathBuf::from(std::env::var("PBT_SCRATCH").unwrap_or_else(|_| "/tmp/pbt-scratch".into()))
}

// ---------------------------------------------------------------------------------------------
// Properties

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&G) -> R,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| (l.file().to_owned(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        PANIC.with(|p| *p.borrow_mut() = Some((format!("{}:{}", loc.0, loc.1), msg)));
    }));
}

const HARNESS: &str = "HARNESS-ERROR";

fn run_guarded(run: fn(&G) -> R, g: &G) -> R {
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(g)));
    match res {
        Ok(r) => r,
        Err(_) => {
            let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("?".into(), "?".into()));
            let file = loc.rsplit_once(':').map(|x| x.0.to_owned()).unwrap_or_default();
            if file.contains("/verif/") || file.starts_with("h") && !file.starts_with('/') || file.starts_with("engine/") || file.starts_with("src/") {
                return Err(Fail { sig: HARNESS.into(), msg: format!("panic in the harness at {}: {}", loc, msg) });
            }
            let short: String = msg.chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
            let base = Path::new(&file).file_name().map(|x| x.to_string_lossy().into_owned()).unwrap_or_default();
            Err(Fail { sig: format!("panic:{}:{}", base, short), msg: format!("panicked at {}: {}", loc, msg) })
        },
    }
}

/// Run some code under test that may panic; gives the panic message instead.
pub fn catching<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("?".into(), "?".into()));
            Err(format!("panicked at {}: {}", loc, msg))
        },
    }
}

fn case_seed(seed: u64, prop: &str, sub: &str, i: u64) -> u64 {
    let mut s = fnv(format!("{}/{}/{}/{}", seed, prop, sub, i).as_bytes());
    splitmix(&mut s)
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => {},
            }
        } else {
            o.push(c);
        }
    }
    o
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---------------------------------------------------------------------------------------------
// Shrinking

fn shrink(run: fn(&G) -> R, start: Vec<u64>, fail0: Fail, budget: Duration, max_evals: usize) -> (Vec<u64>, Fail, String) {
    let t0 = Instant::now();
    let mut evals = 0;
    let mut best = start;
    let mut best_fail = fail0;
    let mut desc = String::new();
    let mut try_it = |cand: &Vec<u64>, best: &mut Vec<u64>, best_fail: &mut Fail, desc: &mut String| -> bool {
        if t0.elapsed() > budget || evals >= max_evals {
            return false;
        }
        evals += 1;
        let mut g = G::replay(cand.clone());
        if let Err(f) = run_guarded(run, &mut g) {
            if f.sig == best_fail.sig {
                let mut used = std::mem::take(&mut *g.rec.borrow_mut());
                while used.last() == Some(&0) {
                    used.pop();
                }
                if used.len() < best.len() || (used.len() == best.len() && used < *best) || desc.is_empty() {
                    *best = used;
                    *best_fail = f;
                    *desc = std::mem::take(&mut *g.desc.borrow_mut());
                    return true;
                }
            }
        }
        false
    };
    let b0 = best.clone();
    try_it(&b0, &mut best, &mut best_fail, &mut desc);
    loop {
        let mut progress = false;
        // delete chunks
        for chunk in [64usize, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len().saturating_sub(chunk);
            loop {
                if i + chunk <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + chunk);
                    if try_it(&c, &mut best, &mut best_fail, &mut desc) {
                        progress = true;
                    } else if i > 0 && c.get(i - 1).is_some_and(|&v| v > 0) {
                        // delete together with decrementing the preceding (length-like) choice
                        c[i - 1] -= 1;
                        if try_it(&c, &mut best, &mut best_fail, &mut desc) {
                            progress = true;
                        }
                    }
                }
                if i == 0 {
                    break;
                }
                i -= 1;
            }
        }
        // lower values
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let v = best[i];
                for nv in [0, v / 2, v - 1] {
                    if nv < best.get(i).copied().unwrap_or(0) {
                        let mut c = best.clone();
                        c[i] = nv;
                        if try_it(&c, &mut best, &mut best_fail, &mut desc) {
                            progress = true;
                        }
                    }
                }
            }
            i += 1;
        }
        if !progress || t0.elapsed() > budget {
            break;
        }
    }
    (best, best_fail, desc)
}

// ---------------------------------------------------------------------------------------------
// Worker

#[link(name = "c")]
extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

fn limits() {
    // address space: 6 GB per worker; no core files.
    unsafe {
        setrlimit(9, &[6 << 30, 6 << 30]);
        setrlimit(4, &[0, 0]);
    }
}

static ECHO: AtomicU64 = AtomicU64::new(0);
static CASE_START: AtomicU64 = AtomicU64::new(0);

fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

fn watchdog(limit_ms: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let s = CASE_START.load(Ordering::Relaxed);
        if s != 0 && now_ms() > s + limit_ms {
            // leave at once; the supervisor re-runs the case
            std::process::exit(97);
        }
    });
}

fn with_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(256 << 20).spawn(f).unwrap().join().unwrap()
}

fn known_for(prop: &str) -> Vec<(String, String)> {
    // lines: known: property=<id> sig=<sig> :: <description>
    let path = std::env::var("PBT_KNOWN").unwrap_or_default();
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let mut out = vec![];
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("known: ") {
            if let Some(rest) = rest.strip_prefix(&format!("property={} sig=", prop)) {
                if let Some((sig, d)) = rest.split_once(" :: ") {
                    out.push((sig.to_owned(), d.to_owned()));
                }
            }
        }
    }
    out
}

struct Job {
    seed: u64,
    tier: String,
    worker: u64,
    workers: u64,
    resume_sub: usize,
    resume_i: u64,
    pos: PathBuf,
    deadline_s: u64,
}

fn count(sub: &Sub, tier: &str) -> u64 {
    // for development: run only one part of a check
    if std::env::var("PBT_SUB").is_ok_and(|s| !s.is_empty() && s != sub.name) {
        return 0;
    }
    let scale: f64 = std::env::var("PBT_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let n = if tier == "thorough" { sub.thorough } else { sub.quick };
    ((n as f64) * scale) as u64
}

fn worker(prop: &Prop, job: &Job) {
    limits();
    let known = known_for(prop.id);
    let pos = std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(&job.pos).unwrap();
    watchdog(20_000);
    let t0 = Instant::now();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut out = String::new();
    let mut violations = 0;
    for (si, sub) in prop.subs.iter().enumerate() {
        if si < job.resume_sub {
            continue;
        }
        let n = count(sub, &job.tier);
        let mut evals = 0u64;
        let mut hashes: HashSet<u64> = HashSet::new();
        let mut samples = 0;
        let mut discards = 0u64;
        let mut i = job.worker;
        if si == job.resume_sub {
            while i < job.resume_i {
                i += job.workers;
            }
        }
        while i < n {
            if t0.elapsed().as_secs() > job.deadline_s {
                *labels.entry(format!("{}: stopped early at deadline", sub.name)).or_default() += 1;
                break;
            }
            let mut rec = [0u8; 16];
            rec[..8].copy_from_slice(&(si as u64).to_le_bytes());
            rec[8..].copy_from_slice(&i.to_le_bytes());
            let _ = pos.write_at(&rec, 0);
            CASE_START.store(now_ms(), Ordering::Relaxed);
            let mut g = G::random(case_seed(job.seed, prop.id, sub.name, i));
            let r = run_guarded(sub.run, &mut g);
            evals += 1;
            for l in g.labels.borrow_mut().drain(..) {
                *labels.entry(format!("{}: {}", sub.name, l)).or_default() += 1;
            }
            match r {
                Ok(()) => {
                    if g.discarded.get() {
                        discards += 1;
                    } else if g.nontrivial.get() && hashes.insert(fnv(g.desc.borrow().as_bytes())) && samples < 1 && job.worker < 2 && i >= n / 3 && g.desc.borrow().len() < 1500 {
                        samples += 1;
                        out.push_str(&format!("X\t{}\t{}\n", sub.name, esc(&g.desc.borrow())));
                    }
                },
                Err(f) => {
                    if f.sig == HARNESS {
                        println!("E\t{}\t{}\t{}\t{}", sub.name, i, esc(&f.msg), esc(&g.desc.borrow()));
                        std::process::exit(2);
                    }
                    if let Some((sig, _)) = known.iter().find(|k| k.0 == f.sig) {
                        *labels.entry(format!("KNOWN {}", sig)).or_default() += 1;
                    } else {
                        violations += 1;
                        println!("P\t{}", sub.name); // a violation was found; shrinking
                        CASE_START.store(0, Ordering::Relaxed);
                        let mut rec = std::mem::take(&mut *g.rec.borrow_mut());
                        let fail0 = f.clone();
                        while rec.last() == Some(&0) {
                            rec.pop();
                        }
                        // A shrink candidate may hang or crash, so give the unshrunk failure first.
                        println!("F\t{}\t{}\t{}\t{}\t{}\t{}", sub.name, i, csv(&rec), esc(&f.sig), esc(&f.msg), esc(&g.desc.borrow()));
                        let (c, f, d) = shrink(sub.run, rec, fail0, Duration::from_secs(25), 4000);
                        println!("F\t{}\t{}\t{}\t{}\t{}\t{}", sub.name, i, csv(&c), esc(&f.sig), esc(&f.msg), esc(&d));
                        break;
                    }
                },
            }
            i += job.workers;
        }
        CASE_START.store(0, Ordering::Relaxed);
        out.push_str(&format!("S\t{}\t{}\t{}\n", sub.name, evals, discards));
        let hs: Vec<String> = hashes.iter().map(|h| format!("{:x}", h)).collect();
        for chunk in hs.chunks(4000) {
            out.push_str(&format!("H\t{}\t{}\n", sub.name, chunk.join(",")));
        }
        print!("{}", out);
        out.clear();
        let _ = std::io::stdout().flush();
        if violations > 0 {
            break;
        }
    }
    for (l, c) in labels {
        out.push_str(&format!("L\t{}\t{}\n", esc(&l), c));
    }
    out.push_str("D\n");
    print!("{}", out);
    let _ = std::io::stdout().flush();
}

fn csv(v: &[u64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

// ---------------------------------------------------------------------------------------------
// Supervisor

#[derive(Default)]
struct Agg {
    evals: BTreeMap<String, u64>,
    discards: BTreeMap<String, u64>,
    hashes: BTreeMap<String, HashSet<u64>>,
    labels: BTreeMap<String, u64>,
    samples: Vec<(String, String)>,
    fails: Vec<(String, String, Vec<u64>, String, String, String)>, // sub, index, choices, sig, msg, desc
    errors: Vec<String>,
}

impl Agg {
    fn line(&mut self, line: &str) -> bool {
        let p: Vec<&str> = line.split('\t').collect();
        match p[0] {
            "S" => {
                *self.evals.entry(p[1].into()).or_default() += p[2].parse::<u64>().unwrap_or(0);
                *self.discards.entry(p[1].into()).or_default() += p[3].parse::<u64>().unwrap_or(0);
            },
            "H" => {
                let e = self.hashes.entry(p[1].into()).or_default();
                for h in p[2].split(',').filter(|s| !s.is_empty()) {
                    e.insert(u64::from_str_radix(h, 16).unwrap_or(0));
                }
            },
            "L" => *self.labels.entry(unesc(p[1])).or_default() += p[2].parse::<u64>().unwrap_or(0),
            "X" => self.samples.push((p[1].into(), unesc(p[2]))),
            "F" => {
                let choices = p[3].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap_or(0)).collect();
                self.fails.retain(|f| !(f.0 == p[1] && f.1 == p[2]));
                self.fails.push((p[1].into(), p[2].into(), choices, unesc(p[4]), unesc(p[5]), unesc(p[6])));
            },
            "E" => self.errors.push(format!("{} case {}: {}\n{}", p[1], p[2], unesc(p[3]), unesc(p[4]))),
            "D" => return true,
            _ => {},
        }
        false
    }
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("PBT_ROOT").unwrap_or_else(|_| ".".into()))
}

fn write_replay(prop: &Prop, sub: &str, choices: &[u64], sig: &str, msg: &str, desc: &str) -> PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let body = format!("property={}\nsub={}\nchoices={}\nsig={}\n--- message\n{}\n--- case\n{}\n", prop.id, sub, csv(choices), esc(sig), msg, desc);
    let path = dir.join(format!("{}-{}-{:08x}.replay", prop.id, sub, fnv(body.as_bytes()) as u32));
    let _ = std::fs::write(&path, body);
    path
}

pub fn main(props: Vec<Prop>) {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let find = |id: &str| -> usize {
        props.iter().position(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("no property {}", id);
            std::process::exit(2)
        })
    };
    match cmd {
        "list" => {
            for p in &props {
                println!("{}", p.id);
            }
        },
        "worker" => {
            // worker ID tier seed k n resume_sub resume_i pos deadline
            let pi = find(&args[2]);
            let job = Job {
                tier: args[3].clone(),
                seed: args[4].parse().unwrap(),
                worker: args[5].parse().unwrap(),
                workers: args[6].parse().unwrap(),
                resume_sub: args[7].parse().unwrap(),
                resume_i: args[8].parse().unwrap(),
                pos: args[9].clone().into(),
                deadline_s: args[10].parse().unwrap(),
            };
            let mut props = props;
            let prop = props.swap_remove(pi);
            with_stack(move || worker(&prop, &job));
        },
        "one" => {
            // one ID sub seed i : run one case, in this process
            let pi = find(&args[2]);
            limits();
            watchdog(60_000);
            let mut props = props;
            let prop = props.swap_remove(pi);
            let (sub, seed, i): (String, u64, u64) = (args[3].clone(), args[4].parse().unwrap(), args[5].parse().unwrap());
            with_stack(move || {
                let s = prop.subs.iter().find(|s| s.name == sub).unwrap();
                CASE_START.store(now_ms(), Ordering::Relaxed);
                ECHO.store(1, Ordering::Relaxed);
                let mut g = G::random(case_seed(seed, prop.id, s.name, i));
                let r = run_guarded(s.run, &mut g);
                println!("{:?}", r);
            });
        },
        "replay" | "choices" => {
            let text = std::fs::read_to_string(&args[2]).expect("replay file");
            let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(&format!("{}=", k))).unwrap_or("").to_owned();
            let (id, sub) = (get("property"), get("sub"));
            if !props.iter().any(|p| p.id == id) {
                eprintln!("property {} is not in this binary", id);
                std::process::exit(2);
            }
            let pi = find(&id);
            let choices: Vec<u64> = get("choices").split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            limits();
            watchdog(60_000);
            let mut props = props;
            let prop = props.swap_remove(pi);
            let failed = with_stack(move || {
                let s = prop.subs.iter().find(|s| s.name == sub).expect("sub");
                CASE_START.store(now_ms(), Ordering::Relaxed);
                let mut g = G::replay(choices);
                let r = run_guarded(s.run, &mut g);
                println!("{}", g.desc.borrow());
                match r {
                    Ok(()) => {
                        println!("--- holds");
                        false
                    },
                    Err(f) => {
                        println!("--- FAILS [{}]\n{}", f.sig, f.msg);
                        true
                    },
                }
            });
            std::process::exit(if failed { 1 } else { 0 });
        },
        "check" => {
            let pi = find(&args[2]);
            let tier = args.get(3).cloned().unwrap_or_else(|| "quick".into());
            let code = supervise(&props[pi], &tier);
            std::process::exit(code);
        },
        _ => {
            eprintln!("usage: check ID [quick|thorough] | replay FILE | one ID SUB SEED I | list");
            std::process::exit(2);
        },
    }
}

fn supervise(prop: &Prop, tier: &str) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let workers: u64 = std::env::var("PBT_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let deadline: u64 = if tier == "thorough" { 3 * 3600 } else { 420 };
    let exe = std::env::current_exe().unwrap();
    let scratch = scratch_base();
    let _ = std::fs::create_dir_all(&scratch);
    let agg = std::sync::Mutex::new(Agg::default());
    let stop = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|sc| {
        for k in 0..workers {
            let (agg, stop, exe, scratch) = (&agg, &stop, &exe, &scratch);
            sc.spawn(move || {
                let mut resume = (0usize, 0u64);
                let mut crashes = 0;
                loop {
                    let pos = scratch.join(format!("pos-{}-{}-{}", std::process::id(), prop.id, k));
                    let mut child = match Command::new(exe)
                        .args(["worker", prop.id, tier, &seed.to_string(), &k.to_string(), &workers.to_string(), &resume.0.to_string(), &resume.1.to_string()])
                        .arg(&pos)
                        .arg(deadline.to_string())
                        .env("RAYON_NUM_THREADS", "1")
                        .stdin(Stdio::null())
                        .stdout(Stdio::piped())
                        .stderr(Stdio::null())
                        .spawn()
                    {
                        Ok(c) => c,
                        Err(e) => {
                            agg.lock().unwrap().errors.push(format!("cannot start worker: {}", e));
                            return;
                        },
                    };
                    let mut done = false;
                    {
                        let rd = BufReader::new(child.stdout.take().unwrap());
                        for line in rd.lines() {
                            let Ok(line) = line else { break };
                            if agg.lock().unwrap().line(&line) {
                                done = true;
                            }
                            if line.starts_with("F\t") {
                                stop.store(true, Ordering::Relaxed);
                            }
                            if stop.load(Ordering::Relaxed) && (line.starts_with("S\t")) {
                                // some worker has a violation: no need to start the next sub-check
                            }
                        }
                    }
                    let st = child.wait().ok();
                    if done {
                        let _ = std::fs::remove_file(&pos);
                        return;
                    }
                    // Died: crash or watchdog.
                    let rec = std::fs::read(&pos).unwrap_or_default();
                    let _ = std::fs::remove_file(&pos);
                    if rec.len() < 16 {
                        agg.lock().unwrap().errors.push(format!("worker {} died before its first case: {:?}", k, st));
                        return;
                    }
                    if !agg.lock().unwrap().errors.is_empty() {
                        return;
                    }
                    if agg.lock().unwrap().fails.iter().any(|f| f.1.parse::<u64>().is_ok_and(|i| i % workers == k)) {
                        return; // it died while shrinking an already reported failure
                    }
                    let si = u64::from_le_bytes(rec[..8].try_into().unwrap()) as usize;
                    let i = u64::from_le_bytes(rec[8..16].try_into().unwrap());
                    let sub = &prop.subs[si];
                    // Re-run on its own.
                    let out = Command::new(exe)
                        .args(["one", prop.id, sub.name, &seed.to_string(), &i.to_string()])
                        .env("RAYON_NUM_THREADS", "1")
                        .stdin(Stdio::null())
                        .stderr(Stdio::null())
                        .output();
                    match out {
                        Ok(o) if o.status.code() == Some(0) => {
                            // not reproducible on its own: resource pressure, count it and go on
                            *agg.lock().unwrap().labels.entry(format!("{}: worker died, case passes alone", sub.name)).or_default() += 1;
                            resume = (si, i + 1);
                        },
                        Ok(o) => {
                            let how = if o.status.code() == Some(97) { "does not finish within 60 s".to_owned() } else { format!("kills the process ({:?})", o.status) };
                            let sig = if o.status.code() == Some(97) { "hang" } else { "crash" };
                            let known = known_for(prop.id);
                            if known.iter().any(|kf| kf.0 == sig) {
                                *agg.lock().unwrap().labels.entry(format!("KNOWN {}", sig)).or_default() += 1;
                                resume = (si, i + 1);
                            } else {
                                // regenerate the choices by dry description: store seed-based replay
                                let desc = describe_case(exe, prop.id, sub.name, seed, i);
                                agg.lock().unwrap().fails.push((sub.name.into(), i.to_string(), vec![], sig.into(), format!("case {} of seed {} {}; re-run: <binary> one {} {} {} {}", i, seed, how, prop.id, sub.name, seed, i), desc));
                                stop.store(true, Ordering::Relaxed);
                                return;
                            }
                        },
                        Err(e) => {
                            agg.lock().unwrap().errors.push(format!("cannot re-run: {}", e));
                            return;
                        },
                    }
                    crashes += 1;
                    if crashes > 50 {
                        agg.lock().unwrap().errors.push("too many irreproducible worker deaths".into());
                        return;
                    }
                }
            });
        }
    });
    let agg = agg.into_inner().unwrap();
    if !agg.errors.is_empty() && agg.fails.is_empty() {
        for e in &agg.errors {
            println!("ERROR {}", e);
        }
        return 2;
    }
    // evidence
    let evals: u64 = agg.evals.values().sum();
    let distinct: u64 = agg.hashes.values().map(|h| h.len() as u64).sum();
    let mut seen: HashSet<String> = HashSet::new();
    let mut reps = vec![];
    let mut fails = agg.fails.clone();
    fails.sort_by_key(|f| f.2.len());
    for f in &fails {
        if seen.insert(format!("{}/{}", f.0, f.3)) {
            let path = write_replay(prop, &f.0, &f.2, &f.3, &f.4, &f.5);
            reps.push((path, f));
        }
    }
    let known = known_for(prop.id);
    let mut ev = String::from("{\n");
    ev.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n", jstr(prop.id), jstr(tier), seed));
    ev.push_str(" \"coverage\": {\n");
    ev.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", evals, distinct, jstr(prop.rule)));
    let subs: Vec<String> = prop
        .subs
        .iter()
        .map(|s| {
            format!(
                "{}: {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"discarded\": {}}}",
                jstr(s.name),
                agg.evals.get(s.name).unwrap_or(&0),
                agg.hashes.get(s.name).map(|h| h.len()).unwrap_or(0),
                agg.discards.get(s.name).unwrap_or(&0)
            )
        })
        .collect();
    ev.push_str(&format!("  \"sub_checks\": {{{}}},\n", subs.join(", ")));
    let labs: Vec<String> = agg.labels.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
    ev.push_str(&format!("  \"labels\": {{{}}},\n", labs.join(", ")));
    let mut sm: Vec<String> = vec![];
    let mut per: BTreeMap<&str, u32> = BTreeMap::new();
    let mut sorted = agg.samples.clone();
    sorted.sort();
    for (s, d) in &sorted {
        let c = per.entry(s).or_default();
        if *c < 2 {
            *c += 1;
            sm.push(jstr(&format!("[{}] {}", s, d)));
        }
    }
    ev.push_str(&format!("  \"samples\": [{}]\n }},\n", sm.join(",\n   ")));
    let ass: Vec<String> = prop.assumptions.iter().map(|s| jstr(s)).collect();
    ev.push_str(&format!(" \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", ass.join(", "), t0.elapsed().as_secs_f64(), reps.len()));
    let evdir = root().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    if let Err(e) = std::fs::write(evdir.join(format!("{}.json", prop.id)), ev) {
        println!("ERROR cannot write evidence: {}", e);
        return 2;
    }
    println!("{} {}: {} cases, {} distinct non-trivial, {:.1}s", prop.id, tier, evals, distinct, t0.elapsed().as_secs_f64());
    for s in &prop.subs {
        println!("  {}: {} cases, {} distinct non-trivial, {} discarded", s.name, agg.evals.get(s.name).unwrap_or(&0), agg.hashes.get(s.name).map(|h| h.len()).unwrap_or(0), agg.discards.get(s.name).unwrap_or(&0));
    }
    if std::env::var("PBT_VERBOSE").is_ok() {
        for (k, v) in &agg.labels {
            println!("    {} = {}", k, v);
        }
    }
    for (sig, d) in &known {
        println!("KNOWN-FINDING: property={} {} (seen {} times in this run)", prop.id, d, agg.labels.get(&format!("KNOWN {}", sig)).unwrap_or(&0));
    }
    if reps.is_empty() {
        0
    } else {
        for (path, f) in &reps {
            println!("--- {} [{}]\n{}\n--- case\n{}", f.0, f.3, f.4, f.5);
            println!("VIOLATION property={} replay={}", prop.id, path.display());
        }
        1
    }
}

fn describe_case(exe: &Path, id: &str, sub: &str, seed: u64, i: u64) -> String {
    match Command::new(exe).args(["one", id, sub, &seed.to_string(), &i.to_string()]).stdin(Stdio::null()).stderr(Stdio::null()).output() {
        Ok(o) => String::from_utf8_lossy(&o.stdout).into_owned(),
        Err(_) => format!("{} one {} {} {} {}", exe.display(), id, sub, seed, i),
    }
}

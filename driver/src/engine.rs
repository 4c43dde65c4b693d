//! The exploration engine: seeded cases on several workers, evidence, replays.
use crate::rng::{hash_bytes, Rng};
use crate::run;
use std::collections::{BTreeMap, HashSet};
use std::ffi::OsString;
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// A violated property, with everything needed to look at it again.
#[derive(Clone, Debug)]
pub struct Bad {
    pub what: String,
    pub files: Vec<(String, Vec<u8>)>,
    pub cmd: String,
    /// Signature for the known-findings file.
    pub sig: String,
}

pub enum Fail {
    /// The property is violated.
    Bad(Box<Bad>),
    /// The harness could not decide.
    Harness(String),
}

pub type Res<T> = Result<T, Fail>;

impl From<String> for Fail {
    fn from(s: String) -> Fail {
        Fail::Harness(s)
    }
}

pub fn bad<T>(what: impl Into<String>) -> Res<T> {
    Err(Fail::Bad(Box::new(Bad { what: what.into(), files: vec![], cmd: String::new(), sig: String::new() })))
}

impl Fail {
    pub fn file(mut self, name: &str, data: &[u8]) -> Fail {
        if let Fail::Bad(b) = &mut self {
            if !b.files.iter().any(|f| f.0 == name) {
                b.files.push((name.to_string(), data.to_vec()));
            }
        }
        self
    }
    pub fn cmd(mut self, c: &str) -> Fail {
        if let Fail::Bad(b) = &mut self {
            if b.cmd.is_empty() {
                b.cmd = c.to_string();
            }
        }
        self
    }
    pub fn sig(mut self, c: &str) -> Fail {
        if let Fail::Bad(b) = &mut self {
            if b.sig.is_empty() {
                b.sig = c.to_string();
            }
        }
        self
    }
}

pub struct Opts {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub bin: PathBuf,
    pub verif: PathBuf,
    pub shim: PathBuf,
    pub probe: Option<PathBuf>,
    /// The binary with AddressSanitizer, which some of the workers run.
    pub san: Option<PathBuf>,
    pub scratch: PathBuf,
    pub start: Instant,
}

impl Opts {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
}

/// Per-worker state.
pub struct W<'a> {
    pub o: &'a Opts,
    pub dir: PathBuf,
    pub evals: u64,
    pub execs: u64,
    pub distinct: HashSet<u64>,
    pub stats: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub iter: u64,
    sub: u64,
    san: bool,
}

impl<'a> W<'a> {
    pub fn new(o: &'a Opts, k: usize) -> W<'a> {
        let dir = o.scratch.join(format!("w{k}"));
        fs::create_dir_all(&dir).ok();
        W {
            o,
            dir,
            evals: 0,
            execs: 0,
            distinct: HashSet::new(),
            stats: BTreeMap::new(),
            samples: vec![],
            iter: 0,
            sub: 0,
            san: k % 4 == 1 && o.san.is_some(),
        }
    }
    pub fn stat(&mut self, k: &str) {
        self.stat_n(k, 1);
    }
    pub fn stat_n(&mut self, k: &str, n: u64) {
        if let Some(v) = self.stats.get_mut(k) {
            *v += n;
        } else {
            self.stats.insert(k.to_string(), n);
        }
    }
    /// Counts an evaluated case; `key` identifies it, `nontrivial` says whether
    /// it counts by the rule of the property.
    pub fn eval(&mut self, key: &str, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            self.distinct.insert(hash_bytes(key.as_bytes()));
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let mut t = s();
            if t.len() > 1500 {
                let mut i = 1500;
                while !t.is_char_boundary(i) {
                    i -= 1;
                }
                t.truncate(i);
                t.push_str(" ...");
            }
            self.samples.push(t);
        }
    }
    /// A fresh empty directory.
    pub fn fresh(&mut self) -> Res<PathBuf> {
        self.sub += 1;
        let d = self.dir.join(format!("c{}", self.sub));
        fs::create_dir_all(&d).map_err(|e| format!("mkdir: {e}"))?;
        Ok(d)
    }
    pub fn drop_dir(&self, d: &Path) {
        if d.starts_with(&self.o.scratch) {
            let _ = fs::remove_dir_all(d);
        }
    }
    pub fn run<S: Into<OsString>>(&mut self, cwd: &Path, args: impl IntoIterator<Item = S>) -> Res<run::Out> {
        self.run_env(cwd, args, vec![])
    }
    pub fn run_env<S: Into<OsString>>(
        &mut self,
        cwd: &Path,
        args: impl IntoIterator<Item = S>,
        mut env: Vec<(String, String)>,
    ) -> Res<run::Out> {
        self.execs += 1;
        let mut bin = &self.o.bin;
        if let (true, Some(san)) = (self.san, &self.o.san) {
            bin = san;
            env.push((run::SAN_ENV.to_string(), "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=0".to_string()));
            self.stat("runs under AddressSanitizer");
        }
        let c = run::Cmd { bin, cwd, args: args.into_iter().map(Into::into).collect(), env };
        run::run(&c).map_err(Fail::Harness)
    }
}

pub fn write(p: &Path, data: impl AsRef<[u8]>) -> Res<()> {
    fs::write(p, data).map_err(|e| Fail::Harness(format!("write {}: {e}", p.display())))
}

pub fn read(p: &Path) -> Res<String> {
    let b = fs::read(p).map_err(|e| Fail::Harness(format!("read {}: {e}", p.display())))?;
    Ok(String::from_utf8_lossy(&b).into_owned())
}

#[derive(Default)]
pub struct Totals {
    pub evals: u64,
    pub execs: u64,
    pub iters: u64,
    pub distinct: HashSet<u64>,
    pub stats: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub bad: Vec<Bad>,
    pub harness: Vec<String>,
}

/// Runs `f` for case numbers 0.. on all cores until the time or case budget is
/// used up or a violation has been found.
pub fn explore(
    o: &Opts,
    label: &str,
    secs: f64,
    max_cases: u64,
    known: &(dyn Fn(&Bad) -> bool + Sync),
    t: &mut Totals,
    f: &(dyn Fn(&mut W, &mut Rng, u64) -> Res<()> + Sync),
) {
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Vec<(u64, Bad)>> = Mutex::new(vec![]);
    let harness: Mutex<Vec<String>> = Mutex::new(vec![]);
    let parts: Mutex<Vec<Totals>> = Mutex::new(vec![]);
    let end = Instant::now() + Duration::from_secs_f64(secs);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(2, 8);
    std::thread::scope(|s| {
        for k in 0..threads {
            let (next, stop, found, harness, parts) = (&next, &stop, &found, &harness, &parts);
            s.spawn(move || {
                let mut w = W::new(o, k);
                w.dir = o.scratch.join(format!("{label}-{k}"));
                let _ = fs::create_dir_all(&w.dir);
                let mut iters = 0;
                loop {
                    if stop.load(Ordering::Relaxed) || Instant::now() >= end {
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= max_cases {
                        break;
                    }
                    iters += 1;
                    w.iter = i;
                    let mut r = Rng::derive(o.seed, &format!("{}/{label}", o.prop), i);
                    match f(&mut w, &mut r, i) {
                        Ok(()) => {}
                        Err(Fail::Bad(b)) if known(&b) => {
                            w.stat(&format!("recorded finding seen again: {}", b.sig));
                        }
                        Err(Fail::Bad(mut b)) => {
                            b.what = format!("{} [{label} case {i}]", b.what);
                            found.lock().unwrap().push((i, *b));
                            stop.store(true, Ordering::Relaxed);
                        }
                        Err(Fail::Harness(e)) => {
                            let mut h = harness.lock().unwrap();
                            h.push(format!("{label} case {i}: {e}"));
                            if h.len() > 50 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                }
                let _ = fs::remove_dir_all(&w.dir);
                parts.lock().unwrap().push(Totals {
                    evals: w.evals,
                    execs: w.execs,
                    iters,
                    distinct: w.distinct,
                    stats: w.stats,
                    samples: w.samples,
                    bad: vec![],
                    harness: vec![],
                });
            });
        }
    });
    for p in parts.into_inner().unwrap() {
        t.evals += p.evals;
        t.execs += p.execs;
        t.iters += p.iters;
        t.distinct.extend(p.distinct);
        for (k, v) in p.stats {
            *t.stats.entry(k).or_default() += v;
        }
        for s in p.samples {
            if t.samples.len() < 4 {
                t.samples.push(s);
            }
        }
    }
    *t.stats.entry(format!("cases:{label}")).or_default() += next.load(Ordering::Relaxed).min(max_cases);
    let mut f = found.into_inner().unwrap();
    f.sort_by_key(|x| x.0);
    t.bad.extend(f.into_iter().map(|x| x.1));
    t.harness.extend(harness.into_inner().unwrap());
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn save_replay(o: &Opts, n: usize, b: &Bad) -> PathBuf {
    let d = o.verif.join("evidence").join("replay").join(&o.prop).join(format!("seed{}-{n}", o.seed));
    let _ = fs::remove_dir_all(&d);
    let _ = fs::create_dir_all(&d);
    let _ = fs::write(d.join("WHAT.txt"), format!("{}\n\ncommand: {}\n", b.what, b.cmd));
    for (name, data) in &b.files {
        let name: String = name.chars().map(|c| if c == '/' { '_' } else { c }).collect();
        let _ = fs::write(d.join(name), data);
    }
    d
}

//! Running the real binary under observation.
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::ffi::OsString;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub const CPU_LIMIT_S: u64 = 60;
/// Overrides the limit for one run.
pub const CPU_ENV: &str = "BMON_CPU_S";
/// Where standard output goes for one run, instead of being captured.
pub const STDOUT_ENV: &str = "BMON_STDOUT";
/// Set for runs under AddressSanitizer.
pub const SAN_ENV: &str = "ASAN_OPTIONS";
pub const WALL_LIMIT_S: u32 = 300;
/// Runs that did not terminate. Each is a violation by itself, so that those
/// that follow need not be given as much time to find which input it was.
static HANGS: AtomicU64 = AtomicU64::new(0);

#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(resource: i32, rlim: *const RLimit) -> i32;
    fn alarm(seconds: u32) -> u32;
}
const RLIMIT_CPU: i32 = 0;
const RLIMIT_FSIZE: i32 = 1;
const RLIMIT_STACK: i32 = 3;
const RLIMIT_CORE: i32 = 4;
const RLIMIT_AS: i32 = 9;

#[derive(Clone, Debug)]
pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
}

impl Out {
    pub fn out(&self) -> String {
        strip_ansi(&String::from_utf8_lossy(&self.stdout))
    }
    pub fn err(&self) -> String {
        strip_ansi(&String::from_utf8_lossy(&self.stderr))
    }
    pub fn panicked(&self) -> bool {
        let e = String::from_utf8_lossy(&self.stderr);
        e.contains("panicked at") || e.contains("has overflowed its stack") || e.contains("memory allocation of")
    }
    /// Why this run is not a clean termination, if it is not.
    pub fn crash(&self) -> Option<String> {
        let first = || {
            let e = self.err();
            e.lines().filter(|l| !l.trim().is_empty()).take(3).collect::<Vec<_>>().join(" / ")
        };
        if let Some(s) = self.signal {
            // 24 is SIGXCPU, 14 is SIGALRM.
            if s == 14 {
                return Some("did not terminate in time".to_string());
            }
            return Some(if s == 24 || s == 9 {
                format!("did not terminate within its CPU time (signal {s})")
            } else {
                format!("died from signal {s}: {}", first())
            });
        }
        if self.panicked() {
            return Some(format!("panicked: {}", first()));
        }
        match self.code {
            Some(0) | Some(1) => None,
            c => Some(format!("exit status {c:?}: {}", first())),
        }
    }
}

pub fn strip_ansi(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' && it.peek() == Some(&'[') {
            it.next();
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

pub struct Cmd<'a> {
    pub bin: &'a Path,
    pub cwd: &'a Path,
    pub args: Vec<OsString>,
    pub env: Vec<(String, String)>,
}

/// Result of a run: an output, or a harness problem.
pub fn run(c: &Cmd) -> Result<Out, String> {
    let mut cmd = Command::new(c.bin);
    cmd.current_dir(c.cwd)
        .args(&c.args)
        .env_clear()
        .env("PATH", "/usr/bin:/bin")
        .env("HOME", c.cwd)
        .env("LANG", "C.UTF-8")
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    for (k, v) in &c.env {
        cmd.env(k, v);
    }
    if let Some((_, to)) = c.env.iter().find(|e| e.0 == STDOUT_ENV) {
        let f = std::fs::OpenOptions::new().write(true).open(to).map_err(|e| format!("{to}: {e}"))?;
        cmd.stdout(f);
    }
    let own = c.env.iter().find(|e| e.0 == CPU_ENV).and_then(|e| e.1.parse().ok());
    let (limit, wall) = match HANGS.load(Ordering::Relaxed) {
        0 => (CPU_LIMIT_S, WALL_LIMIT_S),
        1..=3 => (15, 60),
        _ => (5, 30),
    };
    let san = c.env.iter().any(|e| e.0 == SAN_ENV);
    let cpu = own.unwrap_or(if san { limit * 4 } else { limit });
    unsafe {
        cmd.pre_exec(move || {
            let set = |r, v: u64, w: u64| {
                let l = RLimit { cur: v, max: w };
                setrlimit(r, &l);
            };
            set(RLIMIT_CPU, cpu, cpu + 5);
            set(RLIMIT_FSIZE, 512 << 20, 512 << 20);
            set(RLIMIT_CORE, 0, 0);
            if san {
                // Its shadow takes terabytes of addresses, its frames are larger.
                set(RLIMIT_STACK, 256 << 20, 256 << 20);
            } else {
                set(RLIMIT_AS, 6 << 30, 6 << 30);
            }
            // Waiting for ever uses no CPU time; the alarm survives exec.
            alarm(wall);
            Ok(())
        });
    }
    let mut tries = 0;
    loop {
        match cmd.spawn() {
            Ok(ch) => {
                let o = ch.wait_with_output().map_err(|e| format!("wait: {e}"))?;
                if own.is_none() && matches!(o.status.signal(), Some(24 | 14 | 9)) {
                    HANGS.fetch_add(1, Ordering::Relaxed);
                }
                return Ok(Out {
                    code: o.status.code(),
                    signal: o.status.signal(),
                    stdout: o.stdout,
                    stderr: o.stderr,
                });
            }
            Err(e) => {
                tries += 1;
                if tries > 5 {
                    return Err(format!("cannot start {}: {e}", c.bin.display()));
                }
                std::thread::sleep(std::time::Duration::from_millis(50 * tries));
            }
        }
    }
}

/// One parsed error block of `scaffold`.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Diag {
    /// The text after `bulloak error: `, or the plain message.
    pub kind: String,
    pub quoted: Option<String>,
    pub carets: Option<(usize, usize)>,
    pub at: Option<(usize, usize)>,
}

/// Errors of one file.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct FileErr {
    pub file: String,
    pub diags: Vec<Diag>,
}

#[derive(Clone, Debug, Default)]
pub struct ScaffoldErr {
    pub files: Vec<FileErr>,
    pub skipped: Vec<String>,
    pub failed: Option<usize>,
    pub rest: Vec<String>,
}

const BULLETS: &str = "•••";

/// Parses the stderr of `scaffold`.
pub fn parse_scaffold_err(err: &str) -> ScaffoldErr {
    let mut r = ScaffoldErr::default();
    let mut block: Vec<&str> = vec![];
    // A carriage return would be part of the line.
    for l in err.split('\n') {
        if let Some(f) = l.strip_prefix("file: ") {
            r.files.push(FileErr { file: f.to_string(), diags: parse_diags(&block) });
            block.clear();
        } else if let Some(x) = l.strip_prefix("warn: Could not scaffold ") {
            r.failed = x.split(' ').next().and_then(|n| n.parse().ok());
        } else if let Some(x) = l.strip_prefix("warn: Skipped emitting ") {
            r.skipped.push(x.trim().trim_matches('"').to_string());
        } else if l.trim_start().starts_with("= The corresponding") {
        } else {
            block.push(l);
        }
    }
    r.rest = block.iter().filter(|l| !l.trim().is_empty()).map(|s| s.to_string()).collect();
    r
}

pub fn parse_diags(block: &[&str]) -> Vec<Diag> {
    let mut out: Vec<Diag> = vec![];
    // Lines after a kind line: blank, quoted, carets, blank, `---`.
    let mut i = 0;
    while i < block.len() {
        let l = block[i];
        if l.starts_with(BULLETS) {
            i += 1;
            continue;
        }
        if let Some(k) = l.strip_prefix("bulloak error: ") {
            let mut d = Diag { kind: k.to_string(), ..Default::default() };
            // Located?
            let mut j = i + 1;
            while j < block.len() && !block[j].starts_with("bulloak error: ") && !block[j].starts_with(BULLETS) {
                if let Some(x) = block[j].strip_prefix("--- (line ") {
                    let x = x.trim_end_matches(") ---");
                    if let Some((a, b)) = x.split_once(", column ") {
                        d.at = a.parse().ok().zip(b.parse().ok());
                    }
                    let body = &block[i + 1..j];
                    // body: "", quoted, carets, ""
                    if body.len() >= 3 {
                        d.quoted = Some(body[1].to_string());
                        let c = body[2];
                        let lead = c.chars().take_while(|&c| c == ' ').count();
                        let n = c.chars().skip(lead).take_while(|&c| c == '^').count();
                        if n > 0 && lead + n == c.chars().count() {
                            d.carets = Some((lead + 1, n));
                        }
                    }
                    j += 1;
                    break;
                }
                j += 1;
            }
            out.push(d);
            i = j;
            continue;
        }
        if !l.trim().is_empty() {
            out.push(Diag { kind: l.to_string(), ..Default::default() });
        }
        i += 1;
    }
    out
}

/// One violation printed by `check`.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Viol {
    pub msg: String,
    pub help: Option<String>,
    pub fix: Option<String>,
    pub at: String,
}

#[derive(Clone, Debug, Default)]
pub struct CheckErr {
    pub viols: Vec<Viol>,
    /// `N checks failed` and `K fixes`.
    pub failed: Option<usize>,
    pub fixes: Option<usize>,
    pub rest: Vec<String>,
}

pub fn parse_check_err(err: &str) -> CheckErr {
    let mut r = CheckErr::default();
    let mut cur: Option<Viol> = None;
    for l in err.lines() {
        if let Some(m) = l.strip_prefix("warn: ") {
            if let Some((n, rest)) = m.split_once(' ') {
                if let Ok(n) = n.parse::<usize>() {
                    if rest.starts_with("check failed") || rest.starts_with("checks failed") {
                        r.failed = Some(n);
                        if let Some((_, k)) = rest.split_once("to apply ") {
                            r.fixes = k.split(' ').next().and_then(|k| k.parse().ok());
                        }
                        continue;
                    }
                }
            }
            if let Some(v) = cur.take() {
                r.viols.push(v);
            }
            cur = Some(Viol { msg: m.to_string(), help: None, fix: None, at: String::new() });
        } else if let Some(h) = l.strip_prefix("     = help: ") {
            if let Some(v) = &mut cur {
                v.help = Some(h.to_string());
            }
        } else if let Some(h) = l.strip_prefix("     + fix: run ") {
            if let Some(v) = &mut cur {
                v.fix = Some(h.to_string());
            }
        } else if let Some(a) = l.strip_prefix("   --> ") {
            if let Some(mut v) = cur.take() {
                v.at = a.to_string();
                r.viols.push(v);
            } else {
                r.rest.push(l.to_string());
            }
        } else if !l.trim().is_empty() {
            r.rest.push(l.to_string());
        }
    }
    if let Some(v) = cur.take() {
        r.viols.push(v);
    }
    r
}

/// A snapshot of a directory tree: path -> contents (or a marker).
pub fn snapshot(dir: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    fn walk(root: &Path, d: &Path, out: &mut BTreeMap<PathBuf, Vec<u8>>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let rel = p.strip_prefix(root).unwrap().to_path_buf();
            match e.file_type() {
                Ok(t) if t.is_dir() => {
                    out.insert(rel, b"<dir>".to_vec());
                    walk(root, &p, out);
                }
                Ok(t) if t.is_symlink() => {
                    let l = std::fs::read_link(&p).map(|l| l.to_string_lossy().into_owned()).unwrap_or_default();
                    out.insert(rel, format!("<link {l}>").into_bytes());
                }
                _ => {
                    out.insert(rel, std::fs::read(&p).unwrap_or_else(|e| format!("<{e}>").into_bytes()));
                }
            }
        }
    }
    let mut out = BTreeMap::new();
    walk(dir, dir, &mut out);
    out
}

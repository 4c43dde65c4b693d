mod c_batch;
mod c_check;
mod c_fuzz;
mod c_io;
mod c_probe;
mod c_reject;
mod c_struct;
mod common;
mod engine;
mod model;
mod rng;
mod run;
mod scene;
mod sgen;
mod sol;
mod spec;

use engine::*;
use std::collections::HashMap;
use std::fs;
use std::path::{Path, PathBuf};
use std::time::Instant;

type CaseFn = fn(&mut W, &mut rng::Rng, u64) -> Res<()>;

struct Phase {
    label: &'static str,
    secs: f64,
    cap: u64,
    f: CaseFn,
}

fn phase(label: &'static str, secs: f64, cap: u64, f: CaseFn) -> Phase {
    Phase { label, secs, cap, f }
}

fn plan(prop: &str) -> Option<(Vec<Phase>, &'static str)> {
    let all = u64::MAX;
    Some(match prop {
        "C01" => (
            vec![
                phase("specs", 10.0, all, c_fuzz::specs),
                phase("solidity", 8.0, all, c_fuzz::sols),
                phase("shapes", 6.0, 41, c_fuzz::shapes),
            ],
            "random bytes, token soups, hostile Unicode, odd titles, nesting up to 300 levels and mutated specs for scaffold and check under random flags; mutated Solidity files, token soups and nested code for check and check --fix (twice); big files and odd command lines. Every run must end by itself with status 0 or 1 (limits: 60 s of CPU time, 300 s), with a message if 1 (in the thorough run, a quarter of the workers run a binary built with AddressSanitizer), and every spec must yield either code or an error. Non-trivial: the file is not an untouched valid one; distinct by contents.",
        ),
        "C02" => (
            vec![phase("tests", 18.0, all, c_struct::c02)],
            "random specs scaffolded under random flags; the sequence of test functions is compared with the one the reference model derives from the abstract spec. Non-trivial: more than one member is generated; distinct by tree shape and flags.",
        ),
        "C03" => (
            vec![phase("names", 18.0, all, c_struct::c03)],
            "random specs with odd titles; every function, modifier and contract name is compared with the reference model. Non-trivial: more than one member; distinct by tree shape and flags.",
        ),
        "C04" => (
            vec![phase("modifiers", 18.0, all, c_struct::c04)],
            "random specs; modifier definitions, their positions and each test's modifier list are compared with the path in the abstract tree. Non-trivial: more than one member; distinct by tree shape and flags.",
        ),
        "C05" => (
            vec![phase("comments", 18.0, all, c_struct::c05)],
            "random specs with odd action and description texts; the body of every test is compared with the abstract actions. Non-trivial: more than one member; distinct by tree shape and flags.",
        ),
        "C06" => (
            vec![phase("form", 18.0, all, c_struct::c06)],
            "well-formed and hostile specs (reserved words, vanishing and colliding titles) under random flags; an independent lexer and parser reads the file, names are checked for legality and uniqueness, and `check --fix` must not change a byte. Non-trivial: the spec was accepted; distinct by text and flags.",
        ),
        "C07" => (
            vec![phase("rejection", 18.0, all, c_reject::c07)],
            "random specs with one injected defect of 24 kinds, or several semantic errors, given to scaffold (printing, -w, -w -f) and to check (with and without --fix); the monitor compares the diagnosis of both with the injected defect, and watches exit status, stdout and the directory. Non-trivial: every case; distinct by text.",
        ),
        "C09" => (
            vec![phase("locations", 18.0, all, c_reject::c09)],
            "random specs with one injected defect whose offset is known, or with several semantic errors; line, column, quoted line and carets are compared with the offset. Non-trivial: every case; distinct by kind, line and text.",
        ),
        "C08" => (
            vec![phase("layouts", 18.0, all, c_struct::c08)],
            "four renderings of the same abstract tree (the plain one, random ones, and ones differing in a single aspect); the outputs are compared pairwise. Non-trivial: the texts differ; distinct by text.",
        ),
        "C10" => (
            vec![phase("combine", 18.0, all, c_struct::c10)],
            "files of 2 to 20 trees compared with the composition of what each tree yields alone; one case in five breaks a rule of combination and must be rejected with its diagnosis. Non-trivial: more than one tree; distinct by tree shapes or text.",
        ),
        "C11" => (
            vec![phase("drift", 18.0, all, c_check::c11)],
            "scaffolded files after random edit histories (removals, renamings, moves, changed kinds, renamed or removed contracts, added code); the set of violations with their lines, the counts and the exit status are compared with the reference model. Non-trivial: at least one violation is expected; distinct by spec and file.",
        ),
        "C12" => (
            vec![phase("silence", 18.0, all, c_check::c12)],
            "scaffolded files after random structure-preserving edits; check must be silent. Non-trivial: the file was edited; distinct by spec and file.",
        ),
        "C13" => (
            vec![phase("convergence", 20.0, all, c_check::c13)],
            "files after random edit histories: check --fix, then check, then check --fix again, and --fix --stdout before; one case in three only lacks or permutes scaffolded members and must be restored byte for byte. Non-trivial: the fix changed the file; distinct by spec and file.",
        ),
        "C14" => (
            vec![phase("conservation", 20.0, all, c_check::c14)],
            "files with marked user code after random edit histories: the tokens and comments of every declaration before and after check --fix are compared. Non-trivial: the fix changed the file; distinct by spec and file.",
        ),
        "C15" => (
            vec![phase("flags", 18.0, all, c_struct::c15)],
            "the same specs without flags and under two random combinations, in random spelling and order, printed or written; plus `check` with and without skipped modifiers on damaged files. Non-trivial: at least one flag; distinct by text and flags.",
        ),
        "C16" => (
            vec![phase("files", 18.0, all, c_io::c16)],
            "histories of 2 to 6 commands over a directory with specs of odd names, Solidity files in all states and bystanders; after every command the whole directory (contents, inode, mtime, mode) is compared with what the history allows, and an interposed library logs every operation that modifies the file system; names written only for a moment are taken by a user's file when the command runs again. Non-trivial: the directory holds several specs or the command changed it; distinct by command and directory.",
        ),
        "C17" => (
            vec![phase("batches", 18.0, all, c_batch::c17)],
            "lists of 2 to 7 files (accepted, rejected, missing, unreadable; Solidity files in all states) in random order with duplicates, in six modes; stdout, diagnoses, violations, counts, written files and exit status are compared with those of each file alone. Non-trivial: more than one file; distinct by command and directory.",
        ),
        "C18" => (
            vec![phase("repeat", 18.0, all, c_batch::c18)],
            "the same command on the same files four times (fresh hash seeds; other environments, clocks, configuration files nearby), and once elsewhere under other names with absolute or relative paths; all outputs are compared byte for byte. Non-trivial: the environment or place differs, or something is reported; distinct by command and case.",
        ),
        "C19" => (
            vec![phase("trees", 11.0, all, c_probe::trees), phase("any", 7.0, all, c_probe::any)],
            "the syntax library's parse function, called by a small program: random specs in random layouts, every node (kind, depth, words, start and end in bytes, line and column) compared with where the renderer put it; and fuzzed texts, where the spans of whatever is accepted must be coherent with the text (recomputed lines and columns, nesting, order, ends). Non-trivial: more than two nodes; distinct by text.",
        ),
        "C20" => (
            vec![phase("faults", 20.0, all, c_io::c20)],
            "a command over 1 to 4 files is run once to learn its open, read and write events, then once more per event and failure (7 kinds for reading, 10 for opening to write, 5 for writing, sticky and transient; interrupted and partial operations); exit status, stderr and every file are compared with the undisturbed run. Non-trivial: every injected fault; distinct by command, files and fault.",
        ),
        _ => return None,
    })
}

const LIT_MAX: usize = 24;

/// Words and numbers in the string and number literals of the sources.
fn harvest(repo: &Path) -> spec::Dict {
    fn walk(p: &Path, out: &mut Vec<PathBuf>) {
        if let Ok(rd) = fs::read_dir(p) {
            let mut v: Vec<PathBuf> = rd.flatten().map(|e| e.path()).collect();
            v.sort();
            for p in v {
                if p.is_dir() {
                    if p.file_name().is_some_and(|n| n != "target" && n != "tests" && n != "benches") {
                        walk(&p, out);
                    }
                } else if p.extension().is_some_and(|e| e == "rs") {
                    out.push(p);
                }
            }
        }
    }
    let mut files = vec![];
    walk(&repo.join("crates"), &mut files);
    let mut words: Vec<String> = vec![];
    let mut nums: Vec<usize> = vec![];
    for f in files {
        let Ok(src) = fs::read_to_string(&f) else { continue };
        let src = src.split("#[cfg(test)]").next().unwrap_or("");
        for line in src.lines() {
            let t = line.trim_start();
            if t.starts_with("//") {
                continue;
            }
            let mut in_str = false;
            let mut cur = String::new();
            let mut prev = ' ';
            for c in t.chars() {
                if c == '"' && prev != '\\' {
                    if in_str {
                        words.extend(cur.split_whitespace().map(|s| s.to_string()));
                        cur.clear();
                    }
                    in_str = !in_str;
                } else if in_str {
                    cur.push(c);
                }
                prev = c;
            }
            let mut num = String::new();
            let mut last = ' ';
            for c in t.chars().chain([' ']) {
                if c.is_ascii_digit() && (num.len() > 0 || !(last.is_alphanumeric() || last == '_')) {
                    num.push(c);
                } else if c == '_' && !num.is_empty() {
                } else {
                    if !num.is_empty() {
                        if let Ok(n) = num.parse::<usize>() {
                            if (2..=4096).contains(&n) {
                                nums.push(n);
                            }
                        }
                    }
                    num.clear();
                }
                last = c;
            }
        }
    }
    let tidy = |v: &mut Vec<String>| {
        v.sort();
        v.dedup();
    };
    let mut cond: Vec<String> = words
        .iter()
        .filter(|w| w.len() <= LIT_MAX && w.chars().all(|c| c.is_ascii_alphanumeric() || "_-'".contains(c)))
        .filter(|w| w.chars().any(|c| c.is_ascii_alphanumeric()))
        .cloned()
        .collect();
    let mut act: Vec<String> = words
        .iter()
        .filter(|w| {
            w.len() <= LIT_MAX
                && w.is_ascii()
                && !w.starts_with("//")
                && !w.contains('\\')
                && w.chars().all(|c| c.is_ascii_graphic())
        })
        .cloned()
        .collect();
    tidy(&mut cond);
    tidy(&mut act);
    nums.sort();
    nums.dedup();
    let mut env: Vec<String> = words
        .iter()
        .filter(|w| {
            w.len() > 1
                && w.len() <= LIT_MAX
                && w.starts_with(|c: char| c.is_ascii_uppercase())
                && w.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_')
                && !w.starts_with("LD_")
        })
        .cloned()
        .collect();
    tidy(&mut env);
    let mut files: Vec<String> = words
        .iter()
        .filter(|w| w.len() > 3 && w.len() <= LIT_MAX && !w.starts_with("..") && !w.contains("/.."))
        .filter(|w| w.chars().all(|c| c.is_ascii_alphanumeric() || "._-".contains(c)))
        .filter(|w| {
            let e = w.rsplit('.').next().unwrap_or("");
            w.contains('.') && ["toml", "json", "yaml", "yml", "ini", "cfg", "conf", "rc", "txt", "lock", "env"].contains(&e)
                || w.starts_with('.') && w[1..].chars().all(|c| c.is_ascii_lowercase())
        })
        .cloned()
        .collect();
    tidy(&mut files);
    spec::Dict { cond, act, nums, env, files }
}

fn main() {
    let mut args: HashMap<String, String> = HashMap::new();
    let v: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i + 1 < v.len() {
        args.insert(v[i].clone(), v[i + 1].clone());
        i += 2;
    }
    let get = |k: &str| args.get(k).cloned().unwrap_or_default();
    let prop = get("--prop");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").ok().filter(|t| t == "thorough").unwrap_or("quick".into());
    let repo = PathBuf::from(get("--repo"));
    let verif = PathBuf::from(get("--verif"));
    let scratch = PathBuf::from(get("--scratch"));
    let probe = PathBuf::from(get("--probe"));
    let san = PathBuf::from(get("--san"));
    let factor: f64 = std::env::var("VERIF_TIME_FACTOR").ok().and_then(|s| s.parse().ok()).unwrap_or(
        if tier == "thorough" { 30.0 } else { 1.0 },
    );
    let dict = harvest(&repo);
    let o = Opts {
        prop: prop.clone(),
        tier: tier.clone(),
        seed,
        bin: PathBuf::from(get("--bin")),
        verif: verif.clone(),
        shim: PathBuf::from(get("--shim")),
        san: if san.as_os_str().is_empty() { None } else { Some(san) },
        probe: if probe.as_os_str().is_empty() { None } else { Some(probe) },
        scratch,
        start: Instant::now(),
    };
    let _ = spec::DICT.set(dict);
    let letters = !["C01", "C06", "C16", "C20"].contains(&prop.as_str());
    spec::LETTERS.store(letters, std::sync::atomic::Ordering::Relaxed);
    let big = ["C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C15", "C19"];
    spec::BIG.store(big.contains(&prop.as_str()), std::sync::atomic::Ordering::Relaxed);
    let Some((phases, rule)) = plan(&prop) else {
        eprintln!("unknown property {prop}");
        std::process::exit(2);
    };
    // A generous watchdog: its firing is inconclusive.
    let limit = if tier == "thorough" { 3600 } else { 840 };
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(limit));
        eprintln!("inconclusive: the watchdog of {limit} s fired");
        std::process::exit(2);
    });
    let listed = recorded(&o);
    let mut t = Totals::default();
    for p in &phases {
        if !t.bad.is_empty() {
            break;
        }
        explore(&o, p.label, p.secs * factor, p.cap, &|b| listed.iter().any(|l| l.0 == b.sig), &mut t, &p.f);
    }
    finish(&o, t, rule, phases.iter().map(|p| p.label).collect(), &listed);
}

/// The recorded findings of this property: signatures and descriptions.
fn recorded(o: &Opts) -> Vec<(String, String)> {
    let known = fs::read_to_string(o.verif.join("known-findings.txt")).unwrap_or_default();
    let mut listed: Vec<(String, String)> = vec![];
    for l in known.lines() {
        if let Some(x) = l.strip_prefix("finding: ") {
            let Some((p, rest)) = x.split_once(' ') else { continue };
            if p == format!("property={}", o.prop) {
                let (sig, what) = rest.split_once(" | ").unwrap_or((rest, rest));
                listed.push((sig.trim_start_matches("sig=").to_string(), what.to_string()));
            }
        }
    }
    listed
}

fn finish(o: &Opts, t: Totals, rule: &str, labels: Vec<&str>, listed: &[(String, String)]) -> ! {
    for (_, what) in listed {
        println!("KNOWN-FINDING: property={} {}", o.prop, what);
    }
    let bad: Vec<&Bad> = t.bad.iter().filter(|b| !listed.iter().any(|l| l.0 == b.sig)).collect();
    let level = if o.prop == "C20" { "fault_enumeration" } else { "exploration" };
    let mut j = String::new();
    j.push_str("{\n");
    j.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n", json_str(&o.prop), json_str(&o.tier), o.seed));
    j.push_str(&format!(" \"level\": {},\n \"coverage\": {{\n", json_str(level)));
    j.push_str(&format!("  \"evaluations\": {},\n", t.evals));
    j.push_str(&format!("  \"distinct_nontrivial\": {},\n", t.distinct.len()));
    j.push_str(&format!("  \"executions_observed\": {},\n", t.execs));
    j.push_str(&format!("  \"rule\": {},\n", json_str(rule)));
    j.push_str(&format!(
        "  \"phases\": [{}],\n",
        labels.iter().map(|l| json_str(l)).collect::<Vec<_>>().join(", ")
    ));
    j.push_str("  \"observed\": {");
    let items: Vec<String> = t.stats.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
    j.push_str(&items.join(", "));
    j.push_str("},\n");
    let mut samples = t.samples.clone();
    if samples.is_empty() {
        samples.push("no case was completed before a violation was found".into());
    }
    j.push_str(&format!(
        "  \"samples\": [{}]\n }},\n",
        samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")
    ));
    j.push_str(&format!(" \"inconclusive_cases\": {},\n", t.harness.len()));
    j.push_str(" \"assumptions\": [\"the reference model in driver/src/model.rs states the documented rules\", \"the binary is built from /repo's working tree with the dev profile (overflow checks and debug assertions on)\"],\n");
    j.push_str(&format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", o.start.elapsed().as_secs_f64(), bad.len()));
    let dir = o.verif.join("evidence");
    let _ = fs::create_dir_all(&dir);
    if let Err(e) = fs::write(dir.join(format!("{}.json", o.prop)), &j) {
        eprintln!("cannot write the evidence file: {e}");
        std::process::exit(2);
    }
    eprintln!(
        "{}: {} cases, {} evaluations, {} distinct and non-trivial, {} runs of the binary, {:.1} s",
        o.prop,
        t.iters,
        t.evals,
        t.distinct.len(),
        t.execs,
        o.start.elapsed().as_secs_f64()
    );
    for h in t.harness.iter().take(5) {
        eprintln!("inconclusive: {h}");
    }
    if !bad.is_empty() {
        for (n, b) in bad.iter().enumerate().take(3) {
            let p = save_replay(o, n, b);
            eprintln!("{}", b.what);
            println!("VIOLATION property={} replay={}", o.prop, p.display());
        }
        std::process::exit(1);
    }
    if t.evals == 0 || t.harness.len() as u64 * 5 > t.iters {
        eprintln!("inconclusive: too few cases could be decided");
        std::process::exit(2);
    }
    println!("OK property={} evaluations={} seed={}", o.prop, t.evals, o.seed);
    std::process::exit(0);
}

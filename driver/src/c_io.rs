//! C16 and C20: what is written, and what happens when files fail.
use crate::common::*;
use crate::engine::*;
use crate::model::Flags;
use crate::rng::Rng;
use crate::run::{self, snapshot, Out};
use crate::scene::{self, Item, Mix, What};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug)]
pub struct Ev {
    /// Number of the event, for those that can be faulted.
    pub n: Option<u64>,
    pub op: String,
    pub res: i64,
    pub path: String,
}

pub fn events(log: &Path) -> Vec<Ev> {
    let t = fs::read(log).unwrap_or_default();
    let t = String::from_utf8_lossy(&t).into_owned();
    let mut v = vec![];
    for l in t.lines() {
        if let Some(x) = l.strip_prefix("! ") {
            if let Some((op, p)) = x.split_once(' ') {
                v.push(Ev { n: None, op: op.into(), res: 0, path: p.into() });
            }
        } else {
            let mut it = l.splitn(4, ' ');
            let (Some(n), Some(op), Some(r), Some(p)) = (it.next(), it.next(), it.next(), it.next()) else {
                continue;
            };
            v.push(Ev { n: n.parse().ok(), op: op.into(), res: r.parse().unwrap_or(0), path: p.into() });
        }
    }
    v
}

impl W<'_> {
    /// A run under the interposed library; returns its events.
    pub fn watched(
        &mut self,
        cwd: &Path,
        root: &Path,
        args: Vec<String>,
        fault: Option<String>,
    ) -> Res<(Out, Vec<Ev>)> {
        let log = self.dir.join("events.log");
        let _ = fs::remove_file(&log);
        let s = |p: &Path| p.to_string_lossy().into_owned();
        let mut env = vec![
            ("LD_PRELOAD".to_string(), s(&self.o.shim)),
            ("BMON_LOG".to_string(), s(&log)),
            ("BMON_ROOT".to_string(), s(root)),
        ];
        if let Some(f) = fault {
            env.push(("BMON_FAULT".to_string(), f));
        }
        let o = self.run_env(cwd, args, env)?;
        let v = events(&log);
        let _ = fs::remove_file(&log);
        Ok((o, v))
    }
}

const NAMES: &[&str] = &[
    "a.tree", "b c.tree", "dots.in.name.tree", "noext", "UPPER.TREE", "é日本.tree", ".hidden", ".h.tree", "x.t.tree",
    "t.sol.tree", "-dash.tree", "foo.txt", "foo.tree", "q'uote\".tree", "twice.tree.tree", "sp .tree", "trailing.",
    "%s.tree", "$HOME.tree", "*.tree", "[a].tree", "own.t.sol", "self.sol", "self.tree", "😀.tree", "back\\slash.tree",
    "Foo.tree", "a.b", "lib/a.tree", "lib/deep/b.tree", "sub dir/c.tree", "lib/a.t.tree", "tree", "...tree",
];

/// Paths as users write them; all lead to `rel` below `d` from `cwd`.
fn spell(r: &mut Rng, d: &Path, cwd: &Path, rel: &str) -> String {
    let abs = d.join(rel).to_string_lossy().into_owned();
    let inside = cwd == d;
    match r.below(5) {
        0 => abs,
        1 if inside => format!("./{rel}"),
        2 if inside => format!("zz/../{rel}"),
        3 if inside => format!(".//{rel}"),
        _ if inside && !rel.starts_with('-') => rel.to_string(),
        _ if !inside => format!("../{rel}"),
        _ => abs,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Stamp(u64, i64, i64, u32);

fn stamps(d: &Path) -> BTreeMap<PathBuf, Stamp> {
    let mut m = BTreeMap::new();
    for p in snapshot(d).keys() {
        if let Ok(x) = fs::symlink_metadata(d.join(p)) {
            if !x.is_dir() {
                m.insert(p.clone(), Stamp(x.ino(), x.mtime(), x.mtime_nsec(), x.mode()));
            }
        }
    }
    m
}

/// C16: the file system before and after every command of a history.
pub fn c16(w: &mut W, r: &mut Rng, _: u64) -> Res<()> {
    let n = r.range(2, 6);
    let mut names: Vec<String> = vec![];
    while names.len() < n {
        let x = (*r.pick(NAMES)).to_string();
        if !names.contains(&x) {
            names.push(x);
        }
    }
    let flags = Flags::none();
    let mix = Mix { rejected: 15, broken: 8, sol_none: 50, sol_bad: 15 };
    let mut items = scene::items(w, r, &names, &mix, &flags)?;
    // A Solidity file may be another spec's name: keep the spec.
    let trees: BTreeSet<String> = items.iter().map(|i| i.tree.clone()).collect();
    let mut sols = BTreeSet::new();
    for i in &mut items {
        let s = i.sol_path();
        if trees.contains(&s) || !sols.insert(s) {
            i.sol = What::Missing;
            i.sol_kind = "none";
        }
    }
    let base = w.fresh()?;
    let d = base.join("p");
    for s in ["zz", "cwd"] {
        fs::create_dir_all(d.join(s)).map_err(|e| Fail::Harness(e.to_string()))?;
    }
    scene::lay_out(&d, &items)?;
    for (n, t) in [
        ("README.md", "read me"),
        ("a.t.sol.bak", "old"),
        ("a.tree~", "backup"),
        ("Other.t.sol", "contract Other {}"),
        ("foundry.toml", "[profile.default]\n"),
        ("cwd/a.t.sol", "contract Foo {}"),
        ("t.sol", "contract T {}"),
    ] {
        if !d.join(n).exists() {
            write(&d.join(n), t)?;
        }
    }
    if r.pct(30) && !d.join("link.tree").exists() {
        if let Some(i) = items.iter().find(|i| i.good && i.spec != What::Missing) {
            let _ = std::os::unix::fs::symlink(d.join(&i.tree), d.join("link.tree"));
            let mut j = i.clone();
            j.tree = "link.tree".into();
            j.sol = What::Missing;
            j.sol_kind = "none";
            items.push(j);
        }
    }
    let mut history: Vec<String> = vec![];
    for _ in 0..r.range(2, 6) {
        let cwd = if r.pct(80) { d.clone() } else { d.join("cwd") };
        if r.pct(50) {
            scene::age(&d, &items, r);
        }
        let mut picked: Vec<usize> = vec![];
        for _ in 0..r.range(1, items.len() + 1) {
            picked.push(r.below(items.len()));
        }
        let files: Vec<String> = picked.iter().map(|&k| spell(r, &d, &cwd, &items[k].tree)).collect();
        let mode = r.below(12);
        let mut a: Vec<String> = vec![];
        let mut scaffold_flags: Vec<String> = vec![];
        let (scaffolds, writes, force, fixes) = match mode {
            0 | 1 => (true, false, false, false),
            2 | 3 => (true, true, false, false),
            4 | 5 => (true, true, true, false),
            6 => (false, false, false, false),
            7 => (false, false, false, false),
            // Flags that mean nothing without another one: usage errors.
            10 => (true, false, false, false),
            11 => (false, false, false, false),
            _ => (false, true, false, true),
        };
        let misused = mode >= 10;
        if scaffolds {
            a.push("scaffold".into());
            scaffold_flags = flag_args(&random_flags(r));
            a.extend(scaffold_flags.clone());
            if writes {
                a.push((*r.pick(&["-w", "--write-files"])).into());
            }
            if force || misused {
                a.push((*r.pick(&["-f", "--force-write"])).into());
            }
        } else {
            a.push("check".into());
            if r.pct(30) {
                a.push("-m".into());
            }
            if fixes || mode == 7 {
                a.push("--fix".into());
            }
            if mode == 7 || mode == 11 {
                a.push("--stdout".into());
            }
        }
        let mut rest = files.clone();
        if r.pct(30) {
            // Flags may come last.
            rest.extend(a.drain(1..));
        }
        a.extend(rest);
        let cmd = format!("bulloak {}", a.join(" "));
        history.push(cmd.clone());
        let before = snapshot(&d);
        // What must be there afterwards.
        let mut want = before.clone();
        let mut skipped = 0;
        let mut failed = false;
        // Paths that may be written, relative to the directory.
        let mut may: BTreeSet<PathBuf> = BTreeSet::new();
        if scaffolds && writes {
            for &k in &picked {
                let i = &items[k];
                let sol = PathBuf::from(i.sol_path());
                let here = want.contains_key(&sol);
                if !i.good {
                    failed = true;
                    continue;
                }
                // The spec may have been replaced in between.
                let abs = d.join(&i.tree).to_string_lossy().into_owned();
                let mut p = vec!["scaffold".to_string()];
                p.extend(scaffold_flags.clone());
                p.push(abs);
                let o = w.run(&d, p)?;
                if o.code != Some(0) {
                    // The same text under a plain name tells whose fault it is.
                    let plain = w.fresh()?;
                    fs::copy(d.join(&i.tree), plain.join("plain.tree")).map_err(|e| Fail::Harness(e.to_string()))?;
                    let mut q = vec!["scaffold".to_string()];
                    q.extend(scaffold_flags.clone());
                    q.push("plain.tree".into());
                    let same = w.run(&plain, q)?;
                    w.drop_dir(&plain);
                    if same.code == Some(0) {
                        let f = bad::<()>(format!("the spec is only accepted under another name than {}", i.tree));
                        let f = f.unwrap_err().cmd(&history.join("\n"));
                        return Err(scene::show(f, &items, &history.join("\n")).file("stderr.txt", &o.stderr));
                    }
                    return Err(Fail::Harness(format!("{} is not accepted: {}", i.tree, o.err())));
                }
                let mut text = o.stdout.clone();
                text.pop();
                if here && !force {
                    skipped += 1;
                } else if d.join(&sol).is_dir() {
                    failed = true;
                    may.insert(sol);
                } else {
                    want.insert(sol.clone(), text);
                    may.insert(sol);
                }
            }
        }
        if fixes {
            // What can't be loaded must stay as it is.
            let mut p: Vec<String> = vec!["check".into()];
            p.extend(picked.iter().map(|&k| format!("./{}", items[k].tree)));
            let o = w.run(&d, p)?;
            let e = run::parse_check_err(&o.err());
            for &k in &picked {
                let i = &items[k];
                let sol = i.sol_path();
                let load = e.viols.iter().any(|v| {
                    (v.at == format!("./{}", i.tree) && !v.msg.starts_with("contract \"")) || v.at == format!("./{sol}")
                });
                if !load {
                    may.insert(PathBuf::from(&sol));
                }
            }
        }
        let stamped = stamps(&d);
        let (o, ev) = w.watched(&cwd, &d, a.clone(), None)?;
        let after = snapshot(&d);
        let after_stamps = stamps(&d);
        let res: Res<()> = (|| {
            if ev.is_empty() && !misused {
                return Err(Fail::Harness("no event was observed".into()));
            }
            if let (Some(c), false) = (o.crash(), misused && o.code == Some(2)) {
                return bad(c);
            }
            for (p, b) in &want {
                let free = fixes && may.contains(p);
                match after.get(p) {
                    None => return bad(format!("{} is gone", p.display())),
                    Some(x) if x != b && !free => {
                        return bad(format!(
                            "{} {}",
                            p.display(),
                            if before.contains_key(p) && before.get(p) == Some(b) {
                                "was modified"
                            } else {
                                "does not hold the scaffolded code"
                            }
                        ))
                    }
                    _ => {}
                }
                if !may.contains(p) && stamped.get(p) != after_stamps.get(p) {
                    return bad(format!("{} was rewritten or its mode was changed", p.display()));
                }
            }
            for p in after.keys() {
                if !want.contains_key(p) {
                    return bad(format!("{} was created", p.display()));
                }
            }
            for e in ev.iter().filter(|e| e.n.is_none()) {
                let t = scene::tidy(&e.path);
                if t.starts_with("/dev") || t.starts_with("/proc") {
                    continue;
                }
                match t.strip_prefix(&d) {
                    Ok(rel) => {
                        if before.contains_key(rel) && !may.contains(rel) {
                            return bad(format!("{} of {}, which must stay as it is", e.op, rel.display()));
                        }
                    }
                    Err(_) => return bad(format!("{} of {}", e.op, e.path)),
                }
            }
            if scaffolds && writes {
                let said = o.err().matches("Skipped emitting").count();
                if said != skipped {
                    return bad(format!("{skipped} existing files were skipped with {said} warnings"));
                }
                if !failed && o.code != Some(0) {
                    return bad(format!("exit status {:?}: {}", o.code, o.err().trim()));
                }
            }
            Ok(())
        })();
        if let Err(f) = res {
            let f = f.cmd(&history.join("\n"));
            return Err(scene::show(f, &items, &history.join("\n")).file("stderr.txt", &o.stderr));
        }
        // Files that were only there for a moment might have been the user's.
        let passing: BTreeSet<PathBuf> = ev
            .iter()
            .filter(|e| e.n.is_none())
            .filter_map(|e| scene::tidy(&e.path).strip_prefix(&d).ok().map(|p| p.to_path_buf()))
            .filter(|p| !before.contains_key(p) && !may.contains(p) && !after.contains_key(p))
            .collect();
        if !passing.is_empty() {
            for (p, b) in &before {
                if after.get(p) != Some(b) {
                    let _ = fs::write(d.join(p), b);
                }
            }
            for p in after.keys().filter(|p| !before.contains_key(*p)) {
                let _ = fs::remove_file(d.join(p));
            }
            for p in &passing {
                let _ = fs::write(d.join(p), "mine");
            }
            let o = w.run(&cwd, a.clone())?;
            for p in &passing {
                if fs::read(d.join(p)).ok().as_deref() != Some(b"mine") {
                    let f = bad::<()>(format!("{}, an unrelated file, was overwritten or removed", p.display()));
                    let f = f.unwrap_err().cmd(&format!("echo mine > {}\n{}", p.display(), history.join("\n")));
                    return Err(scene::show(f, &items, &history.join("\n")).file("stderr.txt", &o.stderr));
                }
            }
            w.stat("passing files shadowed by one of the user's");
            break;
        }
        w.stat(match mode {
            0 | 1 => "scaffold",
            2 | 3 => "scaffold -w",
            4 | 5 => "scaffold -w -f",
            6 => "check",
            7 => "check --fix --stdout",
            10 => "scaffold -f",
            11 => "check --stdout",
            _ => "check --fix",
        });
        w.stat_n("file events observed", ev.len() as u64);
        w.stat_n("mutating events observed", ev.iter().filter(|e| e.n.is_none()).count() as u64);
        w.stat_n("existing files skipped", skipped as u64);
        w.eval(&format!("{cmd}{:?}", before.keys()), before.len() > 9 || before != after);
    }
    w.sample(|| scene::describe(&items, &history.join("\n")));
    w.drop_dir(&base);
    Ok(())
}

const E_READ: &[(&str, i32)] = &[
    ("ENOENT", 2),
    ("EIO", 5),
    ("EACCES", 13),
    ("EISDIR", 21),
    ("EMFILE", 24),
    ("ELOOP", 40),
    ("ESTALE", 116),
];
const E_OPENW: &[(&str, i32)] = &[
    ("EACCES", 13),
    ("EIO", 5),
    ("EROFS", 30),
    ("ENOSPC", 28),
    ("EISDIR", 21),
    ("EMFILE", 24),
    ("EPERM", 1),
    ("ETXTBSY", 26),
    ("EDQUOT", 122),
    ("ENOENT", 2),
];
const E_WRITE: &[(&str, i32)] = &[("ENOSPC", 28), ("EIO", 5), ("EDQUOT", 122), ("EFBIG", 27), ("EPIPE", 32)];

/// C20: every event of a command, with every failure.
pub fn c20(w: &mut W, r: &mut Rng, _: u64) -> Res<()> {
    let n = r.range(1, 4);
    let names: Vec<String> = (0..n).map(|i| format!("s{i}.tree")).collect();
    let mix = Mix { rejected: 10, broken: 12, sol_none: 25, sol_bad: 12 };
    let items = scene::items(w, r, &names, &mix, &Flags::none())?;
    let scaffold = r.pct(45);
    let mut a: Vec<String> = vec![];
    let mode;
    if scaffold {
        a.push("scaffold".into());
        a.extend(flag_args(&random_flags(r)));
        mode = *r.pick(&["print", "-w", "-wf", "-wf"]);
        if mode != "print" {
            a.push(mode.into());
        }
    } else {
        a.push("check".into());
        if r.pct(25) {
            a.push("-m".into());
        }
        mode = *r.pick(&["check", "--fix", "--fix", "--fix --stdout"]);
        if mode != "check" {
            a.extend(mode.split(' ').map(|s| s.to_string()));
        }
    }
    a.extend(names.iter().cloned());
    let cmd = format!("bulloak {}", a.join(" "));
    let base = w.fresh()?;
    let d = base.join("p");
    let reset = |d: &Path| -> Res<()> {
        let _ = fs::remove_dir_all(d);
        fs::create_dir_all(d).map_err(|e| Fail::Harness(e.to_string()))?;
        scene::lay_out(d, &items)
    };
    reset(&d)?;
    let before = snapshot(&d);
    let (o0, ev0) = w.watched(&d, &d, a.clone(), None)?;
    let clean = snapshot(&d);
    if let Some(c) = o0.crash() {
        return Err(scene::show(bad::<()>(c).unwrap_err(), &items, &cmd));
    }
    // Without an injected fault: what cannot be read or written is reported.
    natural(&items, scaffold, mode, &o0, &before, &clean)
        .map_err(|f| scene::show(f, &items, &cmd).file("stderr.txt", &o0.stderr))?;
    // The code goes to a device that takes no more.
    let prints = match mode {
        "print" => o0.out().contains("pragma solidity"),
        "--fix --stdout" => o0.out().lines().any(|l| l.starts_with("--> ")),
        _ => false,
    };
    if prints {
        reset(&d)?;
        let o = w.run_env(&d, a.clone(), vec![(run::STDOUT_ENV.to_string(), "/dev/full".to_string())])?;
        let after = snapshot(&d);
        let full = format!("{cmd} > /dev/full");
        let fail = |f: Fail| scene::show(f, &items, &full).file("stderr.txt", &o.stderr);
        if o.code == Some(0) || (o.signal.is_some() && o.signal != Some(13)) {
            return Err(fail(
                bad::<()>(format!(
                    "the code could not be printed, but the command ended with status {:?}, signal {:?}",
                    o.code, o.signal
                ))
                .unwrap_err(),
            ));
        }
        if o.err().trim().is_empty() {
            return Err(fail(bad::<()>("nothing on stderr tells that the code could not be printed").unwrap_err()));
        }
        if after != clean {
            return Err(fail(bad::<()>("files were modified though the code goes to standard output").unwrap_err()));
        }
        w.stat("full standard output");
        w.eval(&full, true);
    }
    let points: Vec<Ev> = ev0.into_iter().filter(|e| e.n.is_some()).collect();
    if points.is_empty() {
        // Everything is missing.
        w.drop_dir(&base);
        return Ok(());
    }
    w.stat_n("events that can fail", points.len() as u64);
    for p in &points {
        let kinds: &[(&str, i32)] = match p.op.as_str() {
            "openr" | "read" => E_READ,
            "openw" => E_OPENW,
            _ => E_WRITE,
        };
        let mut faults: Vec<(String, bool)> = vec![];
        for (k, e) in kinds {
            if p.op == "read" && ["ENOENT", "ELOOP", "EMFILE"].contains(k) {
                continue;
            }
            // With one transient failure and with one that persists.
            faults.push((format!("{}:{e}:sticky", p.n.unwrap()), true));
            if r.pct(20) {
                faults.push((format!("{}:{e}", p.n.unwrap()), true));
            }
            w.stat(&format!("{} {k}", p.op));
        }
        // Interrupted and partial operations are no failures.
        faults.push((format!("{}:4", p.n.unwrap()), false));
        w.stat(&format!("{} EINTR", p.op));
        if p.op == "read" || p.op == "write" {
            faults.push((format!("{}:short", p.n.unwrap()), false));
            w.stat(&format!("{} short", p.op));
            if p.res > 4 {
                faults.push((format!("{}:short:sticky", p.n.unwrap()), false));
            }
        }
        for (f, hard) in faults {
            reset(&d)?;
            let (o, ev) = w.watched(&d, &d, a.clone(), Some(f.clone()))?;
            let after = snapshot(&d);
            let res = faulted(&items, &d, p, hard, &before, &clean, &o0, &o, &after, &ev, mode);
            res.map_err(|x| {
                let x = match x {
                    Fail::Bad(mut b) => {
                        b.what = format!("{} [fault {f} at {} of {}]", b.what, p.op, p.path);
                        Fail::Bad(b)
                    }
                    x => x,
                };
                scene::show(x, &items, &format!("BMON_FAULT={f} {cmd}")).file("stderr.txt", &o.stderr)
            })?;
            w.eval(&format!("{cmd}{f}{:?}", before), true);
        }
    }
    w.sample(|| scene::describe(&items, &format!("{cmd} ({} events, each failed in turn)", points.len())));
    w.drop_dir(&base);
    Ok(())
}

/// The state the files are in may already be a failure.
fn natural(
    items: &[Item],
    scaffold: bool,
    mode: &str,
    o: &Out,
    before: &BTreeMap<PathBuf, Vec<u8>>,
    after: &BTreeMap<PathBuf, Vec<u8>>,
) -> Res<()> {
    let mut fails = 0;
    for i in items {
        let sol = i.sol_path();
        let unreadable = matches!(i.spec_kind, "missing" | "a directory" | "not UTF-8");
        let mut reported = vec![i.tree.clone()];
        let mut fail = unreadable || !i.good;
        if !scaffold {
            reported.push(sol.clone());
            fail |= matches!(i.sol_kind, "none" | "a directory" | "not UTF-8" | "not Solidity");
        } else if mode == "-wf" && i.sol_kind == "a directory" {
            fail = true;
        }
        if fail {
            fails += 1;
            let e = o.err();
            if !e.lines().any(|l| reported.iter().any(|n| names(l, n))) {
                return bad(format!("nothing on stderr names {} ({}; {})", i.tree, i.spec_kind, i.sol_kind));
            }
            if before.get(Path::new(&sol)) != after.get(Path::new(&sol)) {
                return bad(format!("{sol} was written though {} or {sol} could not be read", i.tree));
            }
        }
    }
    if fails > 0 && o.code == Some(0) {
        return bad(format!("the exit status is 0 with {fails} files that could not be processed"));
    }
    Ok(())
}

/// Whether a line names a file, and not one whose name ends like it.
fn names(line: &str, n: &str) -> bool {
    line.contains(n)
}

#[allow(clippy::too_many_arguments)]
fn faulted(
    items: &[Item],
    d: &Path,
    p: &Ev,
    hard: bool,
    before: &BTreeMap<PathBuf, Vec<u8>>,
    clean: &BTreeMap<PathBuf, Vec<u8>>,
    o0: &Out,
    o: &Out,
    after: &BTreeMap<PathBuf, Vec<u8>>,
    ev: &[Ev],
    mode: &str,
) -> Res<()> {
    if let Some(c) = o.crash() {
        return bad(format!("under a failure, the command {c}"));
    }
    if !ev.iter().any(|e| e.n == p.n) {
        return Err(Fail::Harness("the fault was not reached".into()));
    }
    let rel = scene::tidy(&p.path);
    let rel = rel.strip_prefix(d).map(|p| p.to_path_buf()).unwrap_or(rel);
    let owner = items.iter().find(|i| Path::new(&i.tree) == rel || Path::new(&i.sol_path()) == rel);
    // A file written on behalf of the one it is named after.
    let owner = owner.or_else(|| {
        let name = |p: &Path| p.file_name().unwrap_or_default().to_string_lossy().into_owned();
        items
            .iter()
            .filter(|i| {
                let sol = PathBuf::from(i.sol_path());
                sol.parent() == rel.parent() && name(&rel).contains(&name(&sol))
            })
            .max_by_key(|i| i.sol_path().len())
    });
    let Some(owner) = owner else {
        return Err(Fail::Harness(format!("whose file is {}?", rel.display())));
    };
    let owned = [PathBuf::from(&owner.tree), PathBuf::from(owner.sol_path())];
    // The other files come out as they do without the failure.
    for (q, b) in clean {
        if !owned.contains(q) && after.get(q) != Some(b) {
            return bad(format!("{} comes out differently when another file fails", q.display()));
        }
    }
    if let Some(q) = after.keys().find(|q| !clean.contains_key(*q) && !before.contains_key(*q)) {
        return bad(format!("{} appeared", q.display()));
    }
    if before.get(&owned[0]) != after.get(&owned[0]) {
        return bad(format!("the spec {} was modified", owner.tree));
    }
    let same_end = o.code == o0.code && after == clean;
    if !hard {
        if !same_end || o.stdout != o0.stdout {
            return bad(format!(
                "an interrupted or partial {} changes the outcome: exit status {:?} instead of {:?}; {}",
                p.op,
                o.code,
                o0.code,
                o.err().trim()
            ));
        }
        return Ok(());
    }
    if o.code == Some(0) {
        // Someone who tries again may succeed.
        if o0.code == Some(0) && after == clean && o.stdout == o0.stdout {
            return Ok(());
        }
        return bad(format!("exit status 0 though {} of {} failed", p.op, rel.display()));
    }
    // Or it fails, and says so.
    let e = o.err();
    let told = e != o0.err()
        && (e.contains("os error") || e.lines().any(|l| names(l, &owner.tree) || names(l, &owner.sol_path())));
    let already = o0.err().lines().any(|l| names(l, &owner.tree) || names(l, &owner.sol_path()));
    if !told && !already {
        return bad(format!("nothing on stderr tells that {} of {} failed", p.op, rel.display()));
    }
    let reading = p.op == "openr" || p.op == "read";
    if reading && before.get(&owned[1]) != after.get(&owned[1]) {
        return bad(format!("{} was written though reading {} failed", owner.sol_path(), rel.display()));
    }
    if reading {
        let at = ev.iter().position(|e| e.n == p.n).unwrap_or(0);
        if ev[at..].iter().any(|e| e.n.is_none() && scene::tidy(&e.path) == d.join(owner.sol_path())) {
            return bad(format!("{} was opened for writing after reading {} failed", owner.sol_path(), rel.display()));
        }
    }
    // What the others print is still printed.
    if mode == "print" {
        let others: usize = items.iter().filter(|i| i.good && i.tree != owner.tree).count();
        if o.out().matches("pragma solidity").count() < others {
            return bad("the code of the other files was not printed");
        }
    }
    Ok(())
}

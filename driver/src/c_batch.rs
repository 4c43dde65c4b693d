//! C17 and C18: batches against single runs, and repeated runs.
use crate::c_reject;
use crate::common::*;
use crate::engine::*;
use crate::model::Flags;
use crate::rng::Rng;
use crate::run::{self, snapshot, Out, Viol};
use crate::scene::{self, Item, Mix, What};
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};

fn sorted<T: Ord + Clone>(v: &[T]) -> Vec<T> {
    let mut v = v.to_vec();
    v.sort();
    v
}

fn reset(d: &Path, items: &[Item]) -> Res<()> {
    let _ = fs::remove_dir_all(d);
    fs::create_dir_all(d).map_err(|e| Fail::Harness(e.to_string()))?;
    scene::lay_out(d, items)
}

pub fn issues_fixed(o: &Out) -> Option<usize> {
    let out = o.out();
    let l = out.lines().find(|l| l.starts_with("success: "))?;
    l.strip_prefix("success: ")?.split(' ').next()?.parse().ok()
}

/// Makes files almost equal to those of another item: as long, and another
/// letter somewhere, mostly towards the end.
fn twins(w: &mut W, r: &mut Rng, items: &mut [scene::Item]) {
    let (i, j) = (r.below(items.len()), r.below(items.len()));
    let scene::What::File(text) = &items[i].spec else { return };
    let mut text = text.clone();
    let from = if r.pct(80) { text.len() / 2 } else { 0 };
    let at: Vec<usize> = (from..text.len()).filter(|&k| text[k].is_ascii_lowercase()).collect();
    if i == j || at.is_empty() {
        return;
    }
    let k = *r.pick(&at);
    text[k] = if text[k] == b'z' { b'a' } else { text[k] + 1 };
    items[j].spec = scene::What::File(text);
    items[j].spec_kind = "almost another";
    if r.pct(60) {
        items[j].sol = items[i].sol.clone();
        items[j].sol_kind = items[i].sol_kind;
    }
    w.stat("specs that differ in one letter");
}

/// C17.
pub fn c17(w: &mut W, r: &mut Rng, i: u64) -> Res<()> {
    let crowd = i % 40 == 3;
    let n = r.range(2, 7);
    let names: Vec<String> = (0..n)
        .map(|i| match r.below(8) {
            0 => format!("sub/x{i}.tree"),
            1 => format!("y {i}.tree"),
            2 => format!("é{i}.tree"),
            _ => format!("s{i}.tree"),
        })
        .collect();
    let good = r.pct(35) && !crowd;
    let mix = if good {
        Mix { rejected: 0, broken: 0, sol_none: 0, sol_bad: 0 }
    } else {
        Mix { rejected: 25, broken: 15, sol_none: 15, sol_bad: 12 }
    };
    let mut items = scene::items(w, r, &names, &mix, &Flags::none())?;
    if r.pct(25) && !crowd {
        twins(w, r, &mut items);
    }
    let mode = if crowd { *r.pick(&[0, 3]) } else { r.below(6) };
    let mut a: Vec<String> = vec![];
    match mode {
        0 | 1 | 2 => {
            a.push("scaffold".into());
            a.extend(flag_args(&random_flags(r)));
            if mode == 1 {
                a.push("-w".into());
            }
            if mode == 2 {
                a.push("-wf".into());
            }
        }
        _ => {
            a.push("check".into());
            if r.pct(30) {
                a.push("-m".into());
            }
            if mode >= 4 {
                a.push("--fix".into());
            }
            if mode == 5 {
                a.push("--stdout".into());
            }
        }
    }
    let writes = matches!(mode, 1 | 2 | 4);
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    // Not for `check --fix`: it is open whether a file was read before or after
    // it was fixed for the first time.
    if mode != 4 && r.pct(30) {
        for _ in 0..r.range(1, 3) {
            let k = r.below(n);
            order.insert(r.below(order.len() + 1), k);
        }
    }
    let base = w.fresh()?;
    let d = base.join("p");
    // One by one.
    let mut single: BTreeMap<usize, (Out, BTreeMap<PathBuf, Vec<u8>>)> = BTreeMap::new();
    for k in 0..n {
        reset(&d, &items)?;
        let mut b = a.clone();
        b.push(items[k].tree.clone());
        let o = w.run(&d, b)?;
        let s = if writes { snapshot(&d) } else { BTreeMap::new() };
        single.insert(k, (o, s));
    }
    if crowd {
        // As many failures as a byte cannot hold: the status must not wrap.
        if let Some(k) = (0..n).find(|k| single[k].0.code == Some(1)) {
            order.retain(|k| single[k].0.code == Some(0));
            let at = r.below(order.len() + 1);
            let times = *r.pick(&[255, 256, 256, 256, 512]);
            order.splice(at..at, std::iter::repeat(k).take(times));
            w.stat("a file given hundreds of times");
        }
    }
    reset(&d, &items)?;
    let start = snapshot(&d);
    let mut b = a.clone();
    b.extend(order.iter().map(|&k| items[k].tree.clone()));
    let cmd = format!("bulloak {}", b.join(" "));
    let o = w.run(&d, b)?;
    let after = snapshot(&d);
    let res: Res<()> = (|| {
        if let Some(c) = o.crash() {
            // One of them does so alone?
            if single.values().any(|s| s.0.crash().is_some()) {
                return bad(format!("a file makes the command fail: {c}"));
            }
            return bad(format!("files that work alone: {c}"));
        }
        let want_code = if order.iter().all(|k| single[k].0.code == Some(0)) { 0 } else { 1 };
        if o.code != Some(want_code) {
            let codes: Vec<_> = order.iter().map(|k| single[k].0.code).collect();
            return bad(format!("exit status {:?}; alone: {codes:?}", o.code));
        }
        if writes {
            for k in 0..n {
                let sol = PathBuf::from(items[k].sol_path());
                if after.get(&sol) != single[&k].1.get(&sol) {
                    return bad(format!("{} comes out differently than alone", sol.display()));
                }
            }
            for (p, b) in &after {
                let ours = items.iter().any(|i| Path::new(&i.sol_path()) == p);
                if !ours && start.get(p) != Some(b) {
                    return bad(format!("{} changed", p.display()));
                }
            }
        } else if after != start {
            return bad("files changed");
        }
        if mode <= 2 {
            let e = run::parse_scaffold_err(&o.err());
            let mut want_files = vec![];
            let mut want_skipped = vec![];
            let mut failed = 0;
            let mut text: Vec<u8> = vec![];
            for (i, k) in order.iter().enumerate() {
                let s = &single[k].0;
                let x = run::parse_scaffold_err(&s.err());
                let again = order[..i].contains(k);
                if mode == 1 && again && s.code == Some(0) && x.skipped.is_empty() {
                    // By now the output is there.
                    want_skipped.push(items[*k].sol_path());
                    w.stat("outputs that are there the second time");
                }
                failed += x.failed.unwrap_or(0);
                want_files.extend(x.files);
                want_skipped.extend(x.skipped);
                text.extend(&s.stdout);
            }
            if o.stdout != text {
                return bad(format!(
                    "what is printed is not what is printed for each in order: {}",
                    crate::c_struct::first_line_diff(&String::from_utf8_lossy(&text), &o.out())
                ));
            }
            let key = |f: &run::FileErr| format!("{f:?}");
            let mut x: Vec<String> = want_files.iter().map(key).collect();
            let mut y: Vec<String> = e.files.iter().map(key).collect();
            x.sort();
            y.sort();
            diff("diagnoses", &x, &y)?;
            diff("skipped files", &sorted(&want_skipped), &sorted(&e.skipped))?;
            if e.failed.unwrap_or(0) != failed {
                return bad(format!("{:?} files are said to have failed, and not {failed}", e.failed));
            }
        } else {
            let e = run::parse_check_err(&o.err());
            let mut want: Vec<Viol> = vec![];
            let (mut failed, mut fixes, mut fixed) = (0, 0, 0);
            let mut blocks: Vec<String> = vec![];
            for k in &order {
                let s = &single[k].0;
                let x = run::parse_check_err(&s.err());
                want.extend(x.viols);
                failed += x.failed.unwrap_or(0);
                fixes += x.fixes.unwrap_or(0);
                fixed += issues_fixed(s).unwrap_or(0);
                blocks.extend(printed(&s.out()));
            }
            diff("violations", &sorted(&want), &sorted(&e.viols))?;
            if e.failed.unwrap_or(0) != failed || e.fixes.unwrap_or(0) != fixes {
                return bad(format!(
                    "{:?} failed checks and {:?} fixes are counted, and not {failed} and {fixes}",
                    e.failed, e.fixes
                ));
            }
            if mode >= 4 && issues_fixed(&o) != Some(fixed) {
                return bad(format!("{:?} issues are said to be fixed, and not {fixed}", issues_fixed(&o)));
            }
            if mode == 5 {
                diff("printed files", &blocks, &printed(&o.out()))?;
            }
            if mode == 3 && want_code == 0 && !o.out().contains("No issues found") {
                return bad("it is not said that there is no issue");
            }
        }
        Ok(())
    })();
    res.map_err(|f| scene::show(f, &items, &cmd).file("stderr.txt", &o.stderr))?;
    w.stat(["scaffold", "scaffold -w", "scaffold -w -f", "check", "check --fix", "check --fix --stdout"][mode]);
    for k in &order {
        w.stat(if single[k].0.code == Some(0) { "files that pass alone" } else { "files that fail alone" });
    }
    w.eval(&format!("{cmd}{:?}", start), order.len() > 1);
    w.sample(|| scene::describe(&items, &cmd));
    w.drop_dir(&base);
    Ok(())
}

fn printed(out: &str) -> Vec<String> {
    let mut v = vec![];
    let mut cur: Option<String> = None;
    for l in out.lines() {
        if l.starts_with("--> ") && cur.is_none() {
            cur = Some(l.to_string());
        } else if l == "<--" {
            v.extend(cur.take());
        } else if let Some(c) = &mut cur {
            c.push('\n');
            c.push_str(l);
        }
    }
    v.extend(cur);
    v
}

fn environment(r: &mut Rng, shim: &Path) -> Vec<(String, String)> {
    let mut v: Vec<(&str, &str)> = vec![];
    let pool: &[(&str, &[&str])] = &[
        ("LANG", &["C", "tr_TR.UTF-8", "de_DE", "ja_JP.eucJP", ""]),
        ("LC_ALL", &["C", "POSIX", "fr_FR.UTF-8"]),
        ("TZ", &["Asia/Tokyo", "UTC", "America/New_York"]),
        ("HOME", &["/nonexistent", "/", "/tmp"]),
        ("USER", &["nobody", "root"]),
        ("TERM", &["dumb", "xterm-256color", ""]),
        ("COLUMNS", &["20", "300"]),
        ("NO_COLOR", &["1", ""]),
        ("CLICOLOR", &["0", "1"]),
        ("CLICOLOR_FORCE", &["1"]),
        ("FORCE_COLOR", &["1"]),
        ("RUST_LOG", &["trace", "debug"]),
        ("RUST_BACKTRACE", &["1", "full"]),
        ("RUST_MIN_STACK", &["4000000"]),
        ("PATH", &["/nonexistent", ""]),
        ("PWD", &["/nonexistent", "/"]),
        ("TMPDIR", &["/nonexistent"]),
        ("SOURCE_DATE_EPOCH", &["0", "1700000000"]),
        ("BULLOAK_SOLIDITY_VERSION", &["0.1.2"]),
        ("BULLOAK_SKIP_MODIFIERS", &["true"]),
        ("BULLOAK_WITH_VM_SKIP", &["true"]),
        ("FOUNDRY_PROFILE", &["ci", "default"]),
        ("FOUNDRY_FMT_TAB_WIDTH", &["2"]),
        ("CI", &["true"]),
        ("DEBUG", &["1"]),
        ("XDG_CONFIG_HOME", &["/nonexistent"]),
        ("MALLOC_PERTURB_", &["165", "85"]),
        ("MALLOC_ARENA_MAX", &["1"]),
    ];
    for _ in 0..r.below(9) {
        let (k, vs) = r.pick(pool);
        v.push((k, r.pick(vs)));
    }
    let mut v: Vec<(String, String)> = v.into_iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    // Names found in the sources.
    for k in &crate::spec::dict().env {
        if r.pct(30) {
            v.push((k.clone(), r.pick(&["1", "0", "true", "0.7.6", "x", ""]).to_string()));
        }
    }
    if r.pct(50) {
        v.push(("LD_PRELOAD".into(), shim.to_string_lossy().into_owned()));
        v.push(("BMON_TIME".into(), r.pick(&["86400", "-1000000000", "3600", "1", "100000000", "43200"]).to_string()));
    }
    v
}

/// Files that tools of this kind read their configuration from.
fn config_files(r: &mut Rng, d: &Path) -> Res<()> {
    fs::create_dir_all(d).map_err(|e| Fail::Harness(e.to_string()))?;
    const TOML: &str = "solidity_version = \"0.1.2\"\nsolidity-version = \"0.1.2\"\nskip_modifiers = true\nskip-modifiers = true\n\
        with_vm_skip = true\nvm_skip = true\nvm-skip = true\nemit_vm_skip = true\nwrite_files = true\nforce_write = true\nindent = 2\n\
        \n[scaffold]\nsolidity_version = \"0.1.2\"\nskip_modifiers = true\nwith_vm_skip = true\n\n[check]\nskip_modifiers = true\nfix = true\n\
        \n[profile.default]\nsolc = \"0.1.2\"\nsolc_version = \"0.1.2\"\nauto_detect_solc = false\nsrc = \"src\"\ntest = \"t\"\n\
        \n[fmt]\ntab_width = 2\nline_length = 40\nbracket_spacing = true\nint_types = \"short\"\nsort_imports = true\n";
    const JSON: &str = "{\"solidity_version\": \"0.1.2\", \"solidityVersion\": \"0.1.2\", \"skip_modifiers\": true, \"skipModifiers\": true, \
        \"with_vm_skip\": true, \"vmSkip\": true, \"solc\": \"0.1.2\"}\n";
    const YAML: &str = "solidity_version: 0.1.2\nskip_modifiers: true\nwith_vm_skip: true\nsolc: 0.1.2\n";
    const ENV: &str = "BULLOAK_SKIP_MODIFIERS=true\nBULLOAK_SOLIDITY_VERSION=0.1.2\nBULLOAK_WITH_VM_SKIP=true\nSOLC_VERSION=0.1.2\n";
    const INI: &str = "[*]\nindent_size = 2\nend_of_line = crlf\ninsert_final_newline = false\nmax_line_length = 40\n";
    let mut fs: Vec<String> = [
        "foundry.toml", "bulloak.toml", ".bulloak.toml", "config.toml", ".env", ".editorconfig", "package.json",
        "remappings.txt", ".bulloakrc", "bulloak.json", ".bulloakignore", ".gitignore",
    ]
    .map(|s| s.to_string())
    .to_vec();
    fs.extend(crate::spec::dict().files.iter().cloned());
    for n in fs {
        if r.pct(15) {
            continue;
        }
        let t = match n.rsplit('.').next().unwrap_or("") {
            "json" => JSON,
            "yaml" | "yml" => YAML,
            "env" => ENV,
            "editorconfig" => INI,
            "txt" | "gitignore" | "bulloakignore" => "forge-std/=lib/forge-std/src/\n*.tree\n*.sol\n",
            _ => TOML,
        };
        write(&d.join(n), t)?;
    }
    Ok(())
}

/// C18.
pub fn c18(w: &mut W, r: &mut Rng, i: u64) -> Res<()> {
    let n = r.range(1, 4);
    let names: Vec<String> = (0..n).map(|i| format!("s{i}.tree")).collect();
    let mix = Mix { rejected: 25, broken: 5, sol_none: 10, sol_bad: 5 };
    let mut items = scene::items(w, r, &names, &mix, &Flags::none())?;
    for it in &mut items {
        // Sets and maps show their order when there are several things to report.
        if r.pct(30) {
            if let Some((t, _)) = c_reject::many_errors(r) {
                it.spec = What::File(t.into_bytes());
                it.good = false;
                it.spec_kind = "several errors";
            }
        }
    }
    let mut a: Vec<String> = vec![];
    let mode = r.below(6);
    match mode {
        0 | 1 | 2 => {
            a.push("scaffold".into());
            a.extend(flag_args(&random_flags(r)));
            if mode == 1 {
                a.push("-wf".into());
            }
        }
        _ => {
            a.push("check".into());
            if r.pct(30) {
                a.push("-m".into());
            }
            if mode >= 4 {
                a.push("--fix".into());
            }
            if mode == 5 {
                a.push("--stdout".into());
            }
        }
    }
    let base = w.fresh()?;
    let d = base.join("p");
    let run_in = |w: &mut W, dir: &Path, files: &[String], env: Vec<(String, String)>| -> Res<Out> {
        let mut b = a.clone();
        b.extend(files.iter().cloned());
        w.run_env(dir, b, env)
    };
    reset(&d, &items)?;
    let o = run_in(w, &d, &names, vec![])?;
    let after = snapshot(&d);
    let cmd = format!("bulloak {} {}", a.join(" "), names.join(" "));
    for k in 0..3 {
        let mut env = if k == 0 { vec![] } else { environment(r, &w.o.shim) };
        reset(&d, &items)?;
        if k > 0 {
            scene::age(&d, &items, r);
        }
        if k == 2 {
            // Here, above, and in the user's home.
            config_files(r, &d)?;
            config_files(r, &base)?;
            let home = base.join("home");
            config_files(r, &home)?;
            config_files(r, &home.join("bulloak"))?;
            config_files(r, &home.join(".config/bulloak"))?;
            env.retain(|(k, _)| k != "HOME" && k != "XDG_CONFIG_HOME");
            let home = home.to_string_lossy().into_owned();
            env.push(("HOME".into(), home.clone()));
            env.push(("XDG_CONFIG_HOME".into(), home));
        }
        let p = run_in(w, &d, &names, env.clone())?;
        let mut then = snapshot(&d);
        then.retain(|p, _| after.contains_key(p));
        let res: Res<()> = (|| {
            if let Some(c) = p.crash() {
                return bad(c);
            }
            if p.code != o.code {
                return bad(format!("exit status {:?} and then {:?}", o.code, p.code));
            }
            if p.stdout != o.stdout {
                return bad(format!("stdout differs: {}", crate::c_struct::first_line_diff(&o.out(), &p.out())));
            }
            if p.stderr != o.stderr {
                return bad(format!("stderr differs: {}", crate::c_struct::first_line_diff(&o.err(), &p.err())));
            }
            if then != after {
                return bad("the written files differ");
            }
            Ok(())
        })();
        res.map_err(|f| {
            let env: Vec<String> = env.iter().map(|(a, b)| format!("{a}={b}")).collect();
            scene::show(f, &items, &format!("{} {cmd}", env.join(" ")))
                .file("stderr-1.txt", &o.stderr)
                .file("stderr-2.txt", &p.stderr)
                .file("stdout-1.txt", &o.stdout)
                .file("stdout-2.txt", &p.stdout)
        })?;
        w.stat(if k == 0 { "runs repeated" } else { "runs repeated in another environment" });
        w.eval(&format!("{cmd}{k}{i}"), k > 0 || !o.stderr.is_empty());
    }
    // Elsewhere, under other names.
    let e = base.join(*r.pick(&["elsewhere", "é dir/deep/er", "contract Foo", "x.tree"]));
    let new: Vec<String> = (0..n)
        .map(|i| match r.below(5) {
            0 => format!("Qzq{i}"),
            1 => format!("other qzname{i}.txt"),
            2 => format!("sub/dir{i}/z.tree"),
            3 => format!("when{i}qz.t.tree"),
            _ => format!("s{i}.tree"),
        })
        .collect();
    let mut moved = items.clone();
    for (m, t) in moved.iter_mut().zip(&new) {
        m.tree = t.clone();
    }
    reset(&e, &moved)?;
    let style = r.below(3);
    let cwd = match style {
        0 => e.clone(),
        1 => d.clone(),
        _ => PathBuf::from("/"),
    };
    let paths: Vec<String> =
        new.iter().map(|t| if style == 0 { t.clone() } else { e.join(t).to_string_lossy().into_owned() }).collect();
    let p = run_in(w, &cwd, &paths, vec![])?;
    let there = snapshot(&e);
    let res: Res<()> = (|| {
        if let Some(c) = p.crash() {
            return bad(c);
        }
        if p.code != o.code {
            return bad(format!("exit status {:?} here and {:?} there", o.code, p.code));
        }
        for (x, y) in items.iter().zip(&moved) {
            if after.get(Path::new(&x.sol_path())) != there.get(Path::new(&y.sol_path())) {
                return bad(format!("{} and {} differ", x.sol_path(), y.sol_path()));
            }
        }
        let mut back = p.out();
        let mut back_err = p.err();
        // Long names first: one may end like another.
        let mut subst: Vec<(String, String)> = vec![];
        for (x, path) in items.iter().zip(&paths) {
            subst.push((path.clone(), x.tree.clone()));
            let sol = Path::new(path).with_extension("t.sol").to_string_lossy().into_owned();
            subst.push((sol, x.sol_path()));
        }
        subst.sort_by_key(|s| std::cmp::Reverse(s.0.len()));
        for (k, s) in subst.iter().enumerate() {
            back = back.replace(&s.0, &format!("\u{1}{k}\u{1}"));
            back_err = back_err.replace(&s.0, &format!("\u{1}{k}\u{1}"));
        }
        for (k, s) in subst.iter().enumerate() {
            back = back.replace(&format!("\u{1}{k}\u{1}"), &s.1);
            back_err = back_err.replace(&format!("\u{1}{k}\u{1}"), &s.1);
        }
        if back != o.out() {
            return bad(format!("stdout depends on the place: {}", crate::c_struct::first_line_diff(&o.out(), &back)));
        }
        // The command that is offered names a `.tree` file, whatever the spec's name.
        let plain = |t: &str| -> String {
            t.lines().filter(|l| !l.starts_with("     + fix: run ")).map(|l| format!("{l}\n")).collect()
        };
        let (x, y) = (plain(&o.err()), plain(&back_err));
        if x != y {
            return bad(format!("stderr depends on the place: {}", crate::c_struct::first_line_diff(&x, &y)));
        }
        Ok(())
    })();
    res.map_err(|f| scene::show(f, &items, &format!("{cmd}; there: {}", paths.join(" "))).file("stderr-2.txt", &p.stderr))?;
    w.stat(["runs under other names", "runs from another directory", "runs from the root"][style]);
    w.eval(&format!("{cmd}{paths:?}"), true);
    w.sample(|| scene::describe(&items, &cmd));
    w.drop_dir(&base);
    Ok(())
}

//! C11-C14: `check` and `check --fix` over edit histories.
use crate::c_batch::issues_fixed;
use crate::common::*;
use crate::engine::*;
use crate::model::{self, Flags, Mem};
use crate::rng::Rng;
use crate::run::{self, Viol};
use crate::sgen::{self, *};
use crate::sol::{self, Part};
use crate::spec::{self, *};
use std::collections::HashMap;

/// A spec with the file that was scaffolded from it.
pub struct Base {
    pub c: Case,
    pub members: Vec<Mem>,
    pub contract: String,
    pub text: String,
    pub file: UFile,
}

/// Specs for `check`: plain contract names, moderate sizes.
pub fn gen_base(r: &mut Rng) -> Case {
    let mut g = Gen::random(r);
    if r.pct(70) {
        g.budget = g.budget.min(14);
    }
    let s = spec::gen_spec(r, &g);
    let lay = if r.pct(60) { Layout::plain() } else { Layout::random(r) };
    case_of(s, &lay, r)
}

pub fn bases(w: &mut W, r: &mut Rng, n: usize, flags: &Flags) -> Res<Vec<Base>> {
    let cases: Vec<Case> = (0..n).map(|_| gen_base(r)).collect();
    let texts: Vec<&str> = cases.iter().map(|c| c.text.as_str()).collect();
    let got = scaffold_batch(w, &texts, &flag_args(flags))?;
    let mut out = vec![];
    for (c, g) in cases.into_iter().zip(got) {
        let t = with_case(accepted(&g), &c, None, "bulloak scaffold -w spec.tree")?.to_string();
        let file = match sgen::from_scaffold(&t) {
            Ok(f) => f,
            Err(e) => {
                return with_case(
                    bad(format!("the scaffolded file cannot be read: {e}")),
                    &c,
                    Some(&t),
                    "bulloak scaffold -w spec.tree",
                )
            }
        };
        out.push(Base {
            members: model::members(&c.spec),
            contract: model::contract_name(&c.spec),
            c,
            text: t,
            file,
        });
    }
    Ok(out)
}

/// The violations `check` must report: message, location.
fn expected(b: &Base, f: &UFile, w: &Where, skip_mods: bool, tree: &str, solf: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    let Some(c) = &f.contract else {
        v.push((format!("contract \"{}\" is missing in .sol", b.contract), tree.to_string()));
        return v;
    };
    if c.name != b.contract {
        v.push((
            format!("contract \"{}\" is missing in .sol -- found \"{}\" instead", b.contract, c.name),
            format!("{solf}:{}", w.contract),
        ));
    }
    let mut present: Vec<(usize, &str)> = vec![];
    for m in &b.members {
        let at = c.parts.iter().position(|p| p.is_mod == m.is_mod() && p.name.as_deref() == Some(m.name()));
        match at {
            Some(i) => present.push((i, m.name())),
            None if skip_mods && m.is_mod() => {}
            None => v.push((format!("function \"{}\" is missing in .sol", m.name()), format!("{tree}:{}", m.line()))),
        }
    }
    for (k, (i, name)) in present.iter().enumerate() {
        if present[k + 1..].iter().any(|(j, _)| j < i) {
            v.push((format!("incorrect position for function `{name}`"), format!("{solf}:{}", w.parts[*i])));
        }
    }
    v
}

/// Headers of functions in unusual layouts.
fn strew(f: &mut UFile, r: &mut Rng, m: &mut Marks, inside: bool) {
    if r.pct(25) {
        if let Some(c) = &mut f.contract {
            let n = *r.pick(&[20, 50, 100]);
            for p in &mut c.parts {
                if r.pct(n) {
                    sgen::respace(p, r, m, inside);
                }
            }
        }
    }
}

/// Edits that break the structure. Returns how many were made.
pub fn damage(f: &mut UFile, r: &mut Rng, m: &mut Marks, names: &[String]) -> usize {
    let mut n = 0;
    for _ in 0..r.range(1, 5) {
        let Some(c) = &mut f.contract else { break };
        let len = c.parts.len();
        match r.below(12) {
            0 | 1 | 2 if len > 0 => {
                c.parts.remove(r.below(len));
            }
            3 | 4 if len > 1 => {
                let i = r.below(len);
                let p = c.parts.remove(i);
                let j = r.below(len);
                c.parts.insert(j, p);
            }
            5 if len > 1 => {
                let (i, j) = (r.below(len), r.below(len));
                c.parts.swap(i, j);
            }
            6 if len > 1 && r.pct(40) => r.shuffle(&mut c.parts),
            7 if len > 0 => {
                // Rename.
                let i = r.below(len);
                let p = &mut c.parts[i];
                if let Some(old) = p.name.clone() {
                    let new = match r.below(4) {
                        0 => format!("{old}{}", m.next()),
                        1 => old.to_lowercase(),
                        2 => format!("_{old}"),
                        _ => old.strip_suffix(|_: char| true).unwrap_or("x").to_string(),
                    };
                    if new != old && sol::legal_name(&new) {
                        p.text = p.text.replacen(&format!(" {old}"), &format!(" {new}"), 1);
                        p.name = Some(new);
                    }
                }
            }
            8 if len > 0 => {
                // Change the kind.
                let i = r.below(len);
                let p = &mut c.parts[i];
                let Some(name) = p.name.clone() else { continue };
                if p.is_mod {
                    p.text = format!("function {name}() external {{\n        x{}();\n    }}", m.next());
                } else {
                    p.text = format!("modifier {name}() {{\n        _;\n    }}");
                }
                p.is_mod = !p.is_mod;
            }
            9 => {
                c.name = (*r.pick(&["Renamed", "Foo1", "X", "FooT", "Test1"])).to_string();
            }
            10 if r.pct(25) && f.after.is_empty() => {
                f.contract = None;
            }
            11 if r.pct(40) => {
                // Another contract comes first.
                let o = sgen::other_contract(r, m, &c.name.clone(), names);
                let old = std::mem::replace(c, o);
                f.after.insert(0, sgen::contract_text(&old));
            }
            _ => continue,
        }
        n += 1;
    }
    n
}

/// Edits that keep the structure.
fn disorder(f: &mut UFile, r: &mut Rng, m: &mut Marks) {
    let Some(c) = &mut f.contract else { return };
    match r.below(4) {
        0 => c.parts.reverse(),
        1 => r.shuffle(&mut c.parts),
        2 => {
            let at = r.below(c.parts.len().max(1));
            c.parts.rotate_left(at);
        }
        _ => {
            let (i, j) = (r.below(c.parts.len().max(1)), r.below(c.parts.len().max(1)));
            if !c.parts.is_empty() {
                c.parts.swap(i, j);
            }
        }
    }
    let how = *r.pick(&[0, 30, 100]);
    for p in &mut c.parts {
        if r.pct(how) {
            p.pre = sgen::comment(r, m);
        }
        if r.pct(how) {
            sgen::decorate(p, r, m);
        }
    }
}

pub fn embellish(f: &mut UFile, r: &mut Rng, m: &mut Marks, names: &[String], overloads: bool) {
    for _ in 0..r.range(1, 8) {
        match r.below(12) {
            0 => {
                let t = sgen::top_level(r, m);
                f.top.push(t);
            }
            1 => {
                let t = sgen::top_level(r, m);
                f.after.push(t);
            }
            2 => {
                let like = f.contract.as_ref().map(|c| c.name.clone()).unwrap_or("Foo".into());
                let o = sgen::other_contract(r, m, &like, names);
                if f.contract.is_some() {
                    f.after.push(sgen::contract_text(&o));
                } else {
                    f.contract = Some(o);
                }
            }
            3 | 4 | 5 | 6 => {
                if let Some(c) = &mut f.contract {
                    if !c.parts.is_empty() {
                        let i = r.below(c.parts.len());
                        sgen::decorate(&mut c.parts[i], r, m);
                    }
                }
            }
            7 => {
                if let Some(c) = &mut f.contract {
                    c.end = sgen::comment(r, m);
                }
            }
            8 if overloads => {
                // A second function of the same name, after the first one.
                if let Some(c) = &mut f.contract {
                    let n = c.parts.len();
                    if n > 0 {
                        let i = r.below(n);
                        let p = c.parts[i].clone();
                        if let (Some(name), false) = (&p.name, p.is_mod) {
                            let k = m.next();
                            let o = UPart {
                                pre: String::new(),
                                text: format!("function {name}(bytes32 o{k}) external {{\n        x{k}();\n    }}"),
                                is_mod: false,
                                name: Some(name.clone()),
                            };
                            c.parts.insert(i + 1 + r.below(n - i), o);
                        }
                    }
                }
            }
            9 => {
                if let Some(c) = &mut f.contract {
                    if c.kind == "contract" {
                        match r.below(4) {
                            0 => c.kind = "abstract contract".into(),
                            1 if c.tail.is_empty() => c.tail = format!(" is Base{}", m.next()),
                            2 if c.tail.is_empty() => c.tail = format!(" is Base{}(\"{{\"), Other", m.next()),
                            _ => {}
                        }
                    }
                    // Comments before the body.
                    if r.pct(30) {
                        let k = m.next();
                        c.tail.push_str(&match r.below(5) {
                            0 => format!(" /* {{ c{k} */"),
                            1 => format!(" // {{ c{k}\n"),
                            2 => format!(" /*/ {{ c{k} */"),
                            3 => format!("\n    // {}\n   ", sgen::comment_text(r, m)),
                            _ => format!(" /* {} */ /***/", sgen::comment_text(r, m)),
                        });
                    }
                }
            }
            _ => {
                if let Some(c) = &mut f.contract {
                    let o = sgen::other_part(r, m, names);
                    let i = r.below(c.parts.len() + 1);
                    c.parts.insert(i, o);
                }
            }
        }
    }
}

pub fn names_of(b: &Base) -> Vec<String> {
    b.members.iter().filter(|m| !m.is_mod()).map(|m| m.name().to_string()).collect()
}

fn show(b: &Base, text: &str, f: Fail, cmd: &str) -> Fail {
    f.file("spec.tree", b.c.text.as_bytes()).file("spec.t.sol", text.as_bytes()).cmd(cmd)
}

fn check_args(extra: &[&str], names: &[String]) -> Vec<String> {
    let mut a = vec!["check".to_string()];
    a.extend(extra.iter().map(|s| s.to_string()));
    a.extend(names.iter().cloned());
    a
}

/// C11: the violations of a batch of damaged files.
pub fn c11(w: &mut W, r: &mut Rng, _: u64) -> Res<()> {
    let flags = Flags { vm_skip: r.pct(20), skip_mods: r.pct(25), version: None };
    let bs = bases(w, r, 12, &flags)?;
    let skip = if r.pct(50) { flags.skip_mods } else { r.pct(50) };
    let d = w.fresh()?;
    for s in ["dir.t.sol", "sub dir"] {
        std::fs::create_dir_all(d.join(s)).map_err(|e| Fail::Harness(e.to_string()))?;
    }
    let mut want: Vec<Vec<(String, String)>> = vec![];
    let mut texts = vec![];
    let names: Vec<String> = (0..bs.len())
        .map(|i| match r.below(12) {
            0 => format!("dir.t.sol/s{i}.tree"),
            1 => format!("s{i}.t.sol.tree"),
            2 => format!("sub dir/s{i}.tree"),
            3 => format!("{}/s{i}.tree", d.display()),
            _ => format!("s{i}.tree"),
        })
        .collect();
    for (b, n) in bs.iter().zip(&names) {
        let mut m = Marks(0);
        let ns = names_of(b);
        let mut f = b.file.clone();
        if r.pct(60) {
            embellish(&mut f, r, &mut m, &ns, true);
        }
        if r.pct(85) {
            damage(&mut f, r, &mut m, &ns);
        }
        if r.pct(50) {
            embellish(&mut f, r, &mut m, &ns, true);
        }
        strew(&mut f, r, &mut m, true);
        let (mut text, mut at) = sgen::render(&f, &Style::random(r));
        if r.below(300) == 0 {
            // More lines than fit in two bytes.
            let n = 66_000;
            text.insert_str(0, &"\n".repeat(n));
            at.contract += n;
            at.parts.iter_mut().for_each(|l| *l += n);
            w.stat("files of more than 65536 lines");
        }
        let solf = sol_name(n);
        write(&d.join(n), &b.c.text)?;
        write(&d.join(&solf), &text)?;
        want.push(expected(b, &f, &at, skip, n, &solf));
        texts.push(text);
    }
    let mut args = check_args(if skip { &["-m"] } else { &[] }, &names);
    // One of the specs may not have a Solidity file at all.
    let lonely = if r.pct(25) {
        let n = (*r.pick(&["lonely.tree", "dir.t.sol/lonely.tree", "lonely.t.sol.tree"])).to_string();
        write(&d.join(&n), &bs[0].c.text)?;
        let at = r.range(1, args.len());
        args.insert(at, n.clone());
        Some(n)
    } else {
        None
    };
    let cmd = format!("bulloak {}", args.join(" "));
    let o = w.run(&d, &args)?;
    let e = run::parse_check_err(&o.err());
    let fixes: usize = want.iter().map(|v| v.len()).sum();
    let total = fixes + usize::from(lonely.is_some());
    for (((b, n), v), text) in bs.iter().zip(&names).zip(&want).zip(&texts) {
        let solf = sol_name(n);
        let mine = |at: &str| {
            at == n || at == solf || at.starts_with(&format!("{n}:")) || at.starts_with(&format!("{solf}:"))
        };
        let res = (|| {
            if let Some(c) = o.crash() {
                return bad(format!("check {c}"));
            }
            let mut got: Vec<(String, String)> =
                e.viols.iter().filter(|v| mine(&v.at)).map(|v| (plain(&v.msg), v.at.clone())).collect();
            let mut exp = v.clone();
            got.sort();
            exp.sort();
            diff("violations", &exp, &got)?;
            for x in e.viols.iter().filter(|v| mine(&v.at)) {
                match &x.fix {
                    None => return bad(format!("no fix is offered for: {}", x.msg)),
                    Some(f) if *f != format!("`bulloak check --fix {n}`") => {
                        return bad(format!("the fix offered for {n} is to run {f}"))
                    }
                    _ => {}
                }
            }
            Ok(())
        })();
        res.map_err(|f: Fail| show(b, text, f, &cmd).file("stderr.txt", &o.stderr))?;
        for x in v {
            w.stat(&format!("violation: {}", class(&x.0)));
        }
        w.eval(&format!("{}{}", b.c.text, text), !v.is_empty());
    }
    let res = (|| {
        if let Some(n) = &lonely {
            let v = e.viols.iter().find(|v| v.at == *n || v.at == sol_name(n));
            match v {
                None => return bad(format!("nothing is reported for {n}, which has no Solidity file")),
                Some(v) if v.fix.is_some() => return bad("check --fix is offered where there is no Solidity file"),
                Some(v) if v.help != Some(format!("consider running `bulloak scaffold {n}`")) => {
                    return bad(format!("the help for {n}, which has no Solidity file, is {:?}", v.help))
                }
                _ => {}
            }
        }
        if e.viols.len() != total {
            return bad(format!("{} violations are reported instead of {total}", e.viols.len()));
        }
        if !e.rest.is_empty() {
            return bad(format!("check says something unexpected: {:?}", e.rest));
        }
        if o.code != Some(if total > 0 { 1 } else { 0 }) {
            return bad(format!("check exits with {:?} with {total} violations", o.code));
        }
        if total > 0 && (e.failed != Some(total) || e.fixes.unwrap_or(0) != fixes) {
            return bad(format!("check counts {:?} failed checks and {:?} fixes instead of {total} and {fixes}", e.failed, e.fixes));
        }
        if total == 0 && !o.out().contains("No issues found") {
            return bad("check does not say that there is no issue");
        }
        Ok(())
    })();
    res.map_err(|f: Fail| show(&bs[0], &texts[0], f, &cmd).file("stderr.txt", &o.stderr))?;
    if lonely.is_some() {
        w.stat("specs without a Solidity file");
    }
    w.sample(|| texts[0].chars().take(700).collect());
    w.drop_dir(&d);
    Ok(())
}

/// The name of the Solidity file of a spec.
fn sol_name(n: &str) -> String {
    format!("{}.t.sol", n.strip_suffix(".tree").unwrap_or(n))
}

/// A contract may be named as it is in the spec.
fn plain(msg: &str) -> String {
    let inner = msg.strip_prefix("contract \"").and_then(|m| m.strip_suffix("\" is missing in .sol"));
    match inner {
        Some(n) => format!("contract \"{}\" is missing in .sol", model::sanitize(n)),
        None => msg.to_string(),
    }
}

fn class(msg: &str) -> &'static str {
    if msg.contains("instead") {
        "contract name"
    } else if msg.starts_with("contract") {
        "contract missing"
    } else if msg.starts_with("incorrect") {
        "order"
    } else {
        "missing"
    }
}

/// C12: silence on conforming files.
pub fn c12(w: &mut W, r: &mut Rng, _: u64) -> Res<()> {
    let flags = Flags { vm_skip: r.pct(30), skip_mods: r.pct(25), version: if r.pct(20) { Some(versions(r)) } else { None } };
    let bs = bases(w, r, 12, &flags)?;
    let d = w.fresh()?;
    let names: Vec<String> = (0..bs.len()).map(|i| format!("s{i}.tree")).collect();
    let mut texts = vec![];
    for (b, n) in bs.iter().zip(&names) {
        let mut m = Marks(0);
        let ns = names_of(b);
        let text = if r.pct(15) {
            b.text.clone()
        } else {
            let mut f = b.file.clone();
            for _ in 0..r.range(1, 3) {
                embellish(&mut f, r, &mut m, &ns, true);
            }
            strew(&mut f, r, &mut m, true);
            sgen::render(&f, &Style::random(r)).0
        };
        write(&d.join(n), &b.c.text)?;
        write(&sol_of(&d.join(n)), &text)?;
        texts.push(text);
    }
    let skip = flags.skip_mods || r.pct(20);
    let pre: &[&str] = if skip { &["-m"] } else { &[] };
    let o = w.run(&d, check_args(pre, &names))?;
    let clean = |o: &run::Out| {
        o.crash().is_none() && o.code == Some(0) && o.stderr.is_empty() && o.out().contains("No issues found")
    };
    if !clean(&o) {
        for ((b, n), t) in bs.iter().zip(&names).zip(&texts) {
            let a = check_args(pre, &[n.clone()]);
            let o = w.run(&d, &a)?;
            if !clean(&o) {
                let f = bad::<()>(format!(
                    "a conforming file does not pass: {:?} {} {}",
                    o.code,
                    o.out().trim(),
                    o.err().trim()
                ))
                .unwrap_err();
                return Err(show(b, t, f, &format!("bulloak {}", a.join(" "))));
            }
        }
        return bad(format!("conforming files pass one by one but not together: {}", o.err()));
    }
    for (b, t) in bs.iter().zip(&texts) {
        w.eval(&format!("{}{t}", b.c.text), *t != b.text);
        w.stat_n("tests and modifiers kept", b.members.len() as u64);
    }
    w.sample(|| texts[0].chars().take(700).collect());
    w.drop_dir(&d);
    Ok(())
}

fn in_order(b: &Base, text: &str, skip_mods: bool) -> Res<()> {
    let f = match sol::parse_file(text) {
        Ok(f) => f,
        Err(e) => return bad(format!("the fixed file cannot be read: {e}")),
    };
    let Some(c) = f.first_contract() else { return bad("the fixed file has no contract") };
    if c.name != b.contract {
        return bad(format!("the contract is named {} after the fix", c.name));
    }
    let mut last = 0;
    for m in &b.members {
        let kind = if m.is_mod() { "modifier" } else { "function" };
        match c.parts.iter().position(|p| p.kind == kind && p.name == m.name()) {
            Some(i) => {
                if i < last {
                    return bad(format!("{kind} {} is out of order after the fix", m.name()));
                }
                last = i;
            }
            None if skip_mods && m.is_mod() => {}
            None => return bad(format!("{kind} {} is missing after the fix", m.name())),
        }
    }
    Ok(())
}

/// C13 and C14 share the runs: `which` selects what is judged.
fn fix_case(w: &mut W, r: &mut Rng, which: u8) -> Res<()> {
    let flags = Flags { vm_skip: r.pct(20), skip_mods: r.pct(25), version: None };
    let bs = bases(w, r, 8, &flags)?;
    let skip = if r.pct(60) { flags.skip_mods } else { r.pct(50) };
    let d = w.fresh()?;
    let names: Vec<String> = (0..bs.len()).map(|i| format!("s{i}.tree")).collect();
    let mut texts = vec![];
    for (b, n) in bs.iter().zip(&names) {
        let mut m = Marks(0);
        let ns = names_of(b);
        let mut f = b.file.clone();
        if r.pct(12) {
            // All the members of the tree and nothing else, out of order.
            disorder(&mut f, r, &mut m);
            w.stat("files that only lack their order");
        } else {
            if r.pct(80) {
                embellish(&mut f, r, &mut m, &ns, true);
            }
            if r.pct(90) {
                damage(&mut f, r, &mut m, &ns);
            }
            if r.pct(60) {
                embellish(&mut f, r, &mut m, &ns, true);
            }
        }
        strew(&mut f, r, &mut m, false);
        let (mut text, _) = sgen::render(&f, &Style::random(r));
        if text.len() > 50_000 {
            // Every fix reads the whole file again: too slow with many of them.
            text = sgen::render(&b.file, &Style::random(r)).0;
        }
        write(&d.join(n), &b.c.text)?;
        write(&sol_of(&d.join(n)), &text)?;
        texts.push(text);
    }
    let m: &[&str] = if skip { &["-m"] } else { &[] };
    let with = |x: &[&str]| -> Vec<String> {
        let mut v: Vec<&str> = m.to_vec();
        v.extend(x);
        check_args(&v, &names)
    };
    let cmd = format!("bulloak {}", with(&["--fix"]).join(" "));
    let printed = if which == 13 && r.pct(50) { Some(w.run(&d, with(&["--fix", "--stdout"]))?) } else { None };
    let offered = if which == 13 && r.pct(50) {
        Some(run::parse_check_err(&w.run(&d, with(&[]))?.err()).fixes.unwrap_or(0))
    } else {
        None
    };
    let o = w.run(&d, with(&["--fix"]))?;
    if let (Some(k), Some(0)) = (offered, o.code) {
        if issues_fixed(&o) != Some(k) {
            return bad::<()>(format!("{k} fixes were offered, but check --fix reports {:?} of them", issues_fixed(&o)))
                .map_err(|f: Fail| show(&bs[0], &texts[0], f, &cmd));
        }
        w.stat("numbers of fixes compared");
    }
    if o.crash().is_some() || o.code != Some(0) {
        // Look for the culprit.
        for ((b, n), t) in bs.iter().zip(&names).zip(&texts) {
            write(&sol_of(&d.join(n)), t)?;
            let mut v: Vec<&str> = m.to_vec();
            v.push("--fix");
            let o = w.run(&d, check_args(&v, &[n.clone()]))?;
            if o.crash().is_some() || o.code != Some(0) {
                let f = bad::<()>(match o.crash() {
                    Some(c) => format!("check --fix {c}"),
                    None => format!("check --fix exits with {:?}: {}", o.code, o.err().trim()),
                })
                .unwrap_err();
                return Err(show(b, t, f, &cmd));
            }
        }
        return bad(format!("check --fix on several files: {:?} {}", o.code, o.err()));
    }
    let mut fixed = vec![];
    for n in &names {
        fixed.push(read(&sol_of(&d.join(n)))?);
    }
    if which == 14 {
        for ((b, t), after) in bs.iter().zip(&texts).zip(&fixed) {
            let res = preserved(w, b, t, after);
            res.map_err(|f| show(b, t, f, &cmd).file("after.t.sol", after.as_bytes()))?;
            w.eval(&format!("{}{t}", b.c.text), t != after);
        }
        w.sample(|| texts[0].chars().take(900).collect());
        w.drop_dir(&d);
        return Ok(());
    }
    let c = w.run(&d, with(&[]))?;
    if c.code != Some(0) || !c.stderr.is_empty() {
        let e = run::parse_check_err(&c.err());
        let at = e.viols.first().map(|v: &Viol| v.at.clone()).unwrap_or_default();
        let k = names.iter().position(|n| at.starts_with(n.as_str()) || at.starts_with(&n.replace(".tree", ".t.sol")));
        let k = k.unwrap_or(0);
        let f = bad::<()>(format!("violations are left after check --fix: {}", c.err().trim())).unwrap_err();
        return Err(show(&bs[k], &texts[k], f, &cmd).file("after.t.sol", fixed[k].as_bytes()));
    }
    for ((b, t), after) in bs.iter().zip(&texts).zip(&fixed) {
        in_order(b, after, skip)
            .map_err(|f| show(b, t, f, &cmd).file("after.t.sol", after.as_bytes()))?;
    }
    let again = w.run(&d, with(&["--fix"]))?;
    for (((b, n), t), after) in bs.iter().zip(&names).zip(&texts).zip(&fixed) {
        let now = read(&sol_of(&d.join(n)))?;
        let res: Res<()> = (|| {
            if again.code != Some(0) || again.crash().is_some() {
                return bad(format!("the second check --fix: {:?} {}", again.code, again.err()));
            }
            if &now != after {
                return bad(format!("the second check --fix changes the file: {}", first_line_diff(after, &now)));
            }
            if let Some(p) = &printed {
                let out = p.out();
                let head = format!("--> {}\n", n.replace(".tree", ".t.sol"));
                let Some(i) = out.find(&head) else {
                    return bad(format!("--fix --stdout prints nothing for {n}"));
                };
                let rest = &out[i + head.len()..];
                let body = rest.split("\n<--\n").next().unwrap_or(rest);
                if body.trim() != after.trim() {
                    return bad(format!(
                        "--fix --stdout prints something else than --fix writes: {}",
                        first_line_diff(after.trim(), body.trim())
                    ));
                }
            }
            Ok(())
        })();
        res.map_err(|f| {
            show(b, t, f, &cmd).file("after.t.sol", after.as_bytes()).file("after-twice.t.sol", now.as_bytes())
        })?;
        w.eval(&format!("{}{t}", b.c.text), t != after);
    }
    if printed.is_some() {
        w.stat_n("printed fixes compared", names.len() as u64);
    }
    w.sample(|| texts[0].chars().take(900).collect());
    w.drop_dir(&d);
    Ok(())
}

use crate::c_struct::first_line_diff;

/// Files that only lack or permute what was scaffolded.
fn restore(w: &mut W, r: &mut Rng) -> Res<()> {
    let flags = Flags { vm_skip: false, skip_mods: r.pct(30), version: if r.pct(20) { Some(versions(r)) } else { None } };
    let bs = bases(w, r, 12, &flags)?;
    let d = w.fresh()?;
    let names: Vec<String> = (0..bs.len()).map(|i| format!("s{i}.tree")).collect();
    let mut texts = vec![];
    for (b, n) in bs.iter().zip(&names) {
        let mut f = b.file.clone();
        if let Some(c) = &mut f.contract {
            let mode = r.below(6);
            if mode != 0 {
                let p = *r.pick(&[5, 25, 60, 100]);
                c.parts.retain(|_| !r.pct(p));
            }
            if mode == 0 || mode > 3 {
                for _ in 0..r.range(1, 4) {
                    let len = c.parts.len();
                    if len > 1 {
                        let (i, j) = (r.below(len), r.below(len));
                        let p = c.parts.remove(i);
                        c.parts.insert(j.min(c.parts.len()), p);
                    }
                }
            }
            if r.pct(20) {
                c.name = "Wrong".into();
            }
        }
        // The formatter keeps the absence of blank lines.
        let st = Style::random(r);
        let (text, _) = sgen::render(&f, &Style { crlf: false, tight: false, flat: false, joined: false, blank: st.blank.max(1), ..st });
        write(&d.join(n), &b.c.text)?;
        write(&sol_of(&d.join(n)), &text)?;
        texts.push(text);
    }
    let mut a = vec!["--fix"];
    if flags.skip_mods {
        a.push("-m");
    }
    let args = check_args(&a, &names);
    let cmd = format!("bulloak {}", args.join(" "));
    let o = w.run(&d, &args)?;
    for ((b, n), t) in bs.iter().zip(&names).zip(&texts) {
        let after = read(&sol_of(&d.join(n)))?;
        let res: Res<()> = (|| {
            if let Some(c) = o.crash() {
                return bad(format!("check --fix {c}"));
            }
            if o.code != Some(0) {
                return bad(format!("check --fix exits with {:?}: {}", o.code, o.err().trim()));
            }
            if after != b.text {
                return bad(format!(
                    "the scaffolded file is not restored: {}",
                    first_line_diff(&b.text, &after)
                ));
            }
            Ok(())
        })();
        res.map_err(|f| {
            show(b, t, f, &cmd).file("after.t.sol", after.as_bytes()).file("scaffolded.t.sol", b.text.as_bytes())
        })?;
        w.stat("restored files");
        w.eval(&format!("{}{t}", b.c.text), *t != b.text);
    }
    w.drop_dir(&d);
    Ok(())
}

/// Contract names that Solidity rejects cannot be fixed: they stay reported,
/// and everything else is fixed.
fn stubborn(w: &mut W, r: &mut Rng) -> Res<()> {
    let mut bs = bases(w, r, 6, &Flags::none())?;
    let d = w.fresh()?;
    let names: Vec<String> = (0..bs.len()).map(|i| format!("s{i}.tree")).collect();
    let mut texts = vec![];
    let mut wrong = vec![];
    for (b, n) in bs.iter_mut().zip(&names) {
        let is_wrong = r.pct(60);
        if is_wrong {
            let name = *r.pick(&["1Foo", "9", "0x", "42_x", "7Max_"]);
            let mut s = b.c.spec.clone();
            for t in &mut s.trees {
                t.contract = name.to_string();
            }
            b.c = case_of(s, &Layout::plain(), r);
            b.contract = model::contract_name(&b.c.spec);
        }
        wrong.push(is_wrong);
        let mut m = Marks(0);
        let ns = names_of(b);
        let mut f = b.file.clone();
        if r.pct(70) {
            damage(&mut f, r, &mut m, &ns);
        }
        let (text, _) = sgen::render(&f, &Style::random(r));
        write(&d.join(n), &b.c.text)?;
        write(&sol_of(&d.join(n)), &text)?;
        texts.push((text, f.contract.is_some()));
    }
    let any = wrong.iter().any(|x| *x);
    let first = w.run(&d, check_args(&[], &names))?;
    let offered = run::parse_check_err(&first.err()).fixes.unwrap_or(0);
    let o = w.run(&d, check_args(&["--fix"], &names))?;
    let e = run::parse_check_err(&o.err());
    let left = wrong.iter().filter(|x| **x).count();
    let cmd = format!("bulloak check --fix {}", names.join(" "));
    let whole: Res<()> = (|| {
        if let Some(c) = o.crash() {
            return bad(format!("check --fix {c}"));
        }
        if o.code != Some(if any { 1 } else { 0 }) {
            return bad(format!("check --fix exits with {:?} though {left} contracts cannot be renamed", o.code));
        }
        if e.viols.len() != left || any && e.failed != Some(left) {
            return bad(format!("{left} contracts cannot be renamed, but these violations are left: {:?}", e.viols));
        }
        match issues_fixed(&o) {
            Some(n) if n == offered.saturating_sub(left) => Ok(()),
            n => bad(format!("{offered} fixes were offered, {left} cannot be made, and {n:?} are reported as made")),
        }
    })();
    whole.map_err(|f| show(&bs[0], &texts[0].0, f, &cmd))?;
    for (((b, n), (t, has)), is_wrong) in bs.iter().zip(&names).zip(&texts).zip(&wrong) {
        let after = read(&sol_of(&d.join(n)))?;
        let res: Res<()> = (|| {
            let mut b2 = Base {
                c: b.c.clone(),
                members: b.members.clone(),
                contract: b.contract.clone(),
                text: String::new(),
                file: b.file.clone(),
            };
            if *is_wrong {
                let want = format!("contract \"{}\" is missing in .sol", b.contract);
                let sol = n.replace(".tree", ".t.sol");
                let mine: Vec<&Viol> =
                    e.viols.iter().filter(|v| v.at == *n || v.at.starts_with(&format!("{sol}:"))).collect();
                if mine.len() != 1 || !plain(&mine[0].msg).starts_with(&want) {
                    return bad(format!("what cannot be fixed is reported as {mine:?}"));
                }
                if !*has {
                    return Ok(());
                }
                match sol::parse_file(&after) {
                    Ok(f) => b2.contract = f.first_contract().map(|c| c.name.clone()).unwrap_or_default(),
                    Err(e) => return bad(format!("the fixed file cannot be read: {e}")),
                }
            }
            in_order(&b2, &after, false)
        })();
        res.map_err(|f| show(b, t, f, &cmd).file("after.t.sol", after.as_bytes()))?;
        w.stat(if *is_wrong { "names that cannot be fixed" } else { "files fixed next to them" });
        w.eval(&format!("{}{t}", b.c.text), *t != after);
    }
    w.drop_dir(&d);
    Ok(())
}

pub fn c13(w: &mut W, r: &mut Rng, i: u64) -> Res<()> {
    if i % 12 == 7 {
        stubborn(w, r)
    } else if i % 3 == 2 {
        restore(w, r)
    } else {
        fix_case(w, r, 13)
    }
}

pub fn c14(w: &mut W, r: &mut Rng, i: u64) -> Res<()> {
    if i == 0 {
        stolen_comment(w)?;
    }
    if i == 1 {
        empty_comment(w)?;
    }
    if r.pct(8) {
        return unreadable(w, r);
    }
    fix_case(w, r, 14)
}

/// A recorded finding: the formatter gives a modifier without parentheses those
/// of the next function, with the comment in them.
fn stolen_comment(w: &mut W) -> Res<()> {
    let d = w.fresh()?;
    write(&d.join("spec.tree"), "Foo\n└── when a\n    └── when b\n        └── it x\n")?;
    let text = "contract Foo {\n    modifier whenA {\n        _;\n    }\n\n    function test_WhenB( /* mine */ ) external whenA {\n        // it x\n    }\n}\n";
    write(&d.join("spec.t.sol"), text)?;
    let o = w.run(&d, check_args(&["--fix"], &["spec.tree".to_string()]))?;
    let after = read(&d.join("spec.t.sol"))?;
    if o.crash().is_none() && after.find("whenA").zip(after.find("/* mine */")).zip(after.find("function")).is_some_and(|((a, c), f)| a < c && c < f) {
        return bad("a comment in a function's parentheses ends up in the modifier before it")
            .map_err(|f: Fail| f.sig("comment-in-parentheses-after-modifier-without").file("after.t.sol", after.as_bytes()));
    }
    w.drop_dir(&d);
    Ok(())
}

/// A recorded finding: the formatter takes what follows an empty comment for a
/// part of it, up to the end of the next one.
fn empty_comment(w: &mut W) -> Res<()> {
    let d = w.fresh()?;
    let spec = "Foo\n├── it a\n├── it b\n└── when c\n    └── when d\n        └── it x*/y \"q\" it's\n";
    write(&d.join("spec.tree"), spec)?;
    let body = "//\"x\"; true a/b given. x*/y 0x _ b\" \"q\" # ^ ERC32[] calldata b) external {\n";
    let text = format!(
        "contract Foo /**/{{function test_A(){{{body}rget10.call{{value:1 ether,s:0}};assembly{{}}}}function(){{while(()){{}}}}}}\n"
    );
    write(&d.join("spec.t.sol"), &text)?;
    let o = w.run(&d, check_args(&["--fix"], &["spec.tree".to_string()]))?;
    let after = read(&d.join("spec.t.sol"))?;
    if o.crash().is_none() && after.matches("ether").count() != 1 {
        return bad("code after an empty comment is altered")
            .map_err(|f: Fail| f.sig("code-after-empty-comment").file("after.t.sol", after.as_bytes()));
    }
    w.drop_dir(&d);
    Ok(())
}

/// Files that are not UTF-8, or do not parse: `check --fix` must not touch what
/// it cannot read.
fn unreadable(w: &mut W, r: &mut Rng) -> Res<()> {
    let bs = bases(w, r, 6, &Flags::none())?;
    let d = w.fresh()?;
    let names: Vec<String> = (0..bs.len()).map(|i| format!("s{i}.tree")).collect();
    let mut before: Vec<Vec<u8>> = vec![];
    for (b, n) in bs.iter().zip(&names) {
        let mut m = Marks(0);
        let ns = names_of(b);
        let mut f = b.file.clone();
        damage(&mut f, r, &mut m, &ns);
        embellish(&mut f, r, &mut m, &ns, true);
        let (text, _) = sgen::render(&f, &Style::random(r));
        let mut bytes = text.into_bytes();
        if r.pct(70) {
            let lines: Vec<usize> = (0..bytes.len()).filter(|&i| i == 0 || bytes[i - 1] == b'\n').collect();
            let at = *r.pick(&lines);
            let note: &[u8] = *r.pick(&[
                &b"// caf\xe9 au lait\n"[..],
                &b"/* \xff\xfe */\n"[..],
                &b"// \xe2\x82 half\n"[..],
                &b"// \xf0\x9f\x98\n"[..],
                &b"// \x80\n"[..],
            ]);
            bytes.splice(at..at, note.iter().copied());
        } else {
            let braces: Vec<usize> = (0..bytes.len()).filter(|&i| b"{};()".contains(&bytes[i])).collect();
            let at = *r.pick(&braces);
            if r.pct(50) {
                bytes.remove(at);
            } else {
                bytes.insert(at, *r.pick(b"{}(\""));
            }
        }
        write(&d.join(n), &b.c.text)?;
        write(&sol_of(&d.join(n)), &bytes)?;
        before.push(bytes);
    }
    let o = w.run(&d, check_args(&["--fix"], &names))?;
    let err = o.err();
    for ((b, n), t) in bs.iter().zip(&names).zip(&before) {
        let sol = n.replace(".tree", ".t.sol");
        let after = std::fs::read(d.join(&sol)).unwrap_or_default();
        // What ends in the name of a file that cannot be read or parsed.
        let named = err.lines().any(|l| l.trim() == format!("--> {sol}"));
        let foreign = std::str::from_utf8(t).is_err();
        let res: Res<()> = (|| {
            if let Some(c) = o.crash() {
                return bad(format!("check --fix {c}"));
            }
            if named && &after != t {
                return bad("check --fix changes a file that it says it cannot read");
            }
            if foreign && !t.iter().enumerate().filter(|x| *x.1 >= 0x80).all(|(i, _)| {
                // The bytes around each one are still together.
                let part = &t[i.saturating_sub(1)..(i + 2).min(t.len())];
                after.windows(part.len()).any(|x| x == part)
            }) {
                return bad("check --fix replaces bytes that are not UTF-8");
            }
            Ok(())
        })();
        res.map_err(|f| {
            show(b, &String::from_utf8_lossy(t), f, "bulloak check --fix spec.tree").file("after.t.sol", &after)
        })?;
        w.stat(if foreign { "files that are not UTF-8" } else { "files with a token too much or too few" });
        w.eval(&format!("{}{t:?}", b.c.text), named);
    }
    w.drop_dir(&d);
    Ok(())
}

const SEPARATOR: &[&str] = &[
    "<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<",
    "==================== BULLOAK AUTOGENERATED SEPARATOR ====================",
    ">>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>",
    "Code below this section could not be automatically moved by bulloak",
    "=========================================================================",
];

fn sorted(v: &[String]) -> Vec<String> {
    let mut v = v.to_vec();
    v.sort();
    v
}

/// The formatter writes a block of one statement with or without its braces.
fn unbraced(b: &[String]) -> Vec<&str> {
    let mut drop = vec![false; b.len()];
    for i in 1..b.len() {
        if b[i] == "{" && (b[i - 1] == ")" || b[i - 1] == "else") {
            let Some(n) = b[i + 1..].iter().position(|t| t == "{" || t == "}") else { continue };
            let e = i + 1 + n;
            if b[e] == "}" && b[i + 1..e].iter().filter(|t| *t == ";").count() == 1 && b[e - 1] == ";" {
                drop[i] = true;
                drop[e] = true;
            }
        }
    }
    b.iter().zip(drop).filter(|x| !x.1).map(|x| x.0.as_str()).collect()
}

/// The identity of a declaration: kind, sorted header and body.
fn print_of(p: &Part) -> String {
    let body = p.body.as_ref().map(|b| unbraced(b).join(" "));
    let mut sub: Vec<String> = p.parts.iter().map(print_of).collect();
    if p.kind == "modifier" {
        // `modifier m` and `modifier m()` are the same.
        let head: Vec<String> = p.head.iter().filter(|t| *t != "(" && *t != ")").cloned().collect();
        return format!("{} {:?} {:?}", p.kind, sorted(&head), body);
    }
    sub.insert(0, format!("{} {:?} {:?}", p.kind, sorted(&p.head), body));
    let mut loose = sorted(&p.loose);
    sub.append(&mut loose);
    sub.join("\n")
}

/// Everything the user had is still there, where it was.
fn preserved(w: &mut W, b: &Base, before: &str, after: &str) -> Res<()> {
    let x = match sol::parse_file(before) {
        Ok(f) => f,
        Err(e) => return Err(Fail::Harness(format!("cannot read a generated file: {e}"))),
    };
    let y = match sol::parse_file(after) {
        Ok(f) => f,
        Err(e) => return bad(format!("the fixed file cannot be read: {e}")),
    };
    let first = x.first_contract().map(|p| p.start);
    if sorted(&x.loose) != sorted(&y.loose) {
        return bad(format!(
            "comments outside of contracts: {:?} became {:?}",
            sorted(&x.loose),
            sorted(&y.loose)
        ));
    }
    // Without a contract, one is appended.
    let y_parts: Vec<&Part> =
        if first.is_none() { y.parts.iter().take(x.parts.len()).collect() } else { y.parts.iter().collect() };
    if x.parts.len() != y_parts.len() {
        return bad(format!("{} declarations became {}", x.parts.len(), y_parts.len()));
    }
    for (p, q) in x.parts.iter().zip(y_parts) {
        if Some(p.start) != first {
            let (a, c) = (print_of(p), print_of(q));
            if a != c {
                return bad(format!("outside of the tested contract, `{a}` became `{c}`"));
            }
            w.stat("other declarations kept");
            continue;
        }
        // The tested contract: its parts as multisets.
        let rename = |h: &Vec<String>, name: &str| {
            let mut h = h.clone();
            if let Some(i) = h.iter().position(|t| t == name) {
                h.remove(i);
            }
            sorted(&h)
        };
        if rename(&p.head, &p.name) != rename(&q.head, &q.name) || p.kind != q.kind {
            return bad(format!("the contract's header {:?} became {:?}", p.head, q.head));
        }
        let mut left: HashMap<String, usize> = HashMap::new();
        for m in &q.parts {
            *left.entry(print_of(m)).or_default() += 1;
        }
        for m in &p.parts {
            let k = print_of(m);
            match left.get_mut(&k) {
                Some(n) if *n > 0 => *n -= 1,
                _ => {
                    let near: Vec<String> =
                        q.parts.iter().filter(|x| x.name == m.name).map(print_of).collect();
                    return bad(format!("`{k}` is gone or was altered; of the same name: {near:?}"));
                }
            }
            w.stat("declarations of the tested contract kept");
        }
        // What is new are tests and modifiers of the spec that were missing.
        for m in &q.parts {
            let k = print_of(m);
            let n = left.get_mut(&k).unwrap();
            if *n == 0 {
                continue;
            }
            *n -= 1;
            let had = p.parts.iter().any(|x| x.kind == m.kind && x.name == m.name);
            let of_spec = b.members.iter().any(|x| {
                x.name() == m.name && (x.is_mod() && m.kind == "modifier" || !x.is_mod() && m.kind == "function")
            });
            if had || !of_spec {
                return bad(format!("`{k}` appeared"));
            }
            w.stat("functions added");
        }
        // Comments between the parts.
        let (mut a, mut c) = (sorted(&p.loose), sorted(&q.loose));
        let mut extra = vec![];
        let mut i = 0;
        while i < c.len() {
            match a.iter().position(|t| *t == c[i]) {
                Some(j) => {
                    a.remove(j);
                    c.remove(i);
                }
                None => {
                    extra.push(c[i].clone());
                    i += 1;
                }
            }
        }
        if !a.is_empty() {
            return bad(format!("comments are gone from the contract: {a:?}"));
        }
        if let Some(x) = extra.iter().find(|x| !SEPARATOR.contains(&x.as_str())) {
            return bad(format!("a comment appeared in the contract: {x:?}"));
        }
        w.stat_n("comments between declarations kept", p.loose.len() as u64);
    }
    Ok(())
}


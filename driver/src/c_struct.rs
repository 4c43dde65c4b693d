//! C02-C06, C08, C10 and C15: what is scaffolded.
use crate::common::*;
use crate::engine::*;
use crate::model::{self, Flags, Mem, Scaf};
use crate::rng::Rng;
use crate::run;
use crate::sol;
use crate::spec::{self, *};
use std::collections::HashSet;

const BATCH: usize = 24;

/// One judgement of an accepted spec: model, what was written, raw text.
type Judge = fn(&mut W, &Case, &Scaf, &Scaf, &str) -> Res<()>;

fn run_judge(w: &mut W, r: &mut Rng, flags: &Flags, judge: Judge) -> Res<()> {
    let cases: Vec<Case> = (0..BATCH).map(|_| gen_case(r)).collect();
    let texts: Vec<&str> = cases.iter().map(|c| c.text.as_str()).collect();
    let args = flag_args(flags);
    let cmd = format!("bulloak scaffold -w {} spec.tree", args.join(" "));
    let got = scaffold_batch(w, &texts, &args)?;
    for (c, g) in cases.iter().zip(&got) {
        let sol = g.sol.clone();
        let res = (|| {
            let text = accepted(g)?;
            let have = parsed(text)?;
            let want = model::scaffold(&c.spec, flags);
            judge(w, c, &want, &have, text)
        })();
        with_case(res, c, sol.as_deref(), &cmd)?;
        w.stat_n("scaffolded members", model::members(&c.spec).len() as u64);
        let key = format!("{}{:?}", model::spec_shape(&c.spec), flags);
        let nt = model::members(&c.spec).len() > 1;
        w.eval(&key, nt);
        w.sample(|| describe(c));
    }
    Ok(())
}

fn same_test(a: &model::Fun, b: &model::Fun) -> bool {
    a.name == b.name || (a.comments == b.comments && !a.comments.is_empty())
}

pub fn c02(w: &mut W, r: &mut Rng, _: u64) -> Res<()> {
    let flags = random_flags(r);
    run_judge(w, r, &flags, |w, _, want, have, _| {
        let (a, b) = (funs(want), funs(have));
        w.stat_n("tests compared", a.len() as u64);
        for i in 0..a.len().max(b.len()) {
            match (a.get(i), b.get(i)) {
                (Some(x), Some(y)) if same_test(x, y) => {}
                (x, y) => {
                    let n = |x: Option<&&model::Fun>| x.map(|x| x.name.clone()).unwrap_or("nothing".into());
                    return bad(format!(
                        "test number {i} should be {}, is {} ({} expected, {} found)",
                        n(x),
                        n(y),
                        a.len(),
                        b.len()
                    ));
                }
            }
        }
        // No two tests may stand for the same branch.
        let names: HashSet<&String> = b.iter().map(|f| &f.name).collect();
        if names.len() != b.len() {
            return bad("two tests have the same name");
        }
        Ok(())
    })
}

pub fn c03(w: &mut W, r: &mut Rng, _: u64) -> Res<()> {
    let flags = random_flags(r);
    run_judge(w, r, &flags, |w, _, want, have, _| {
        let list = |s: &Scaf| -> Vec<String> { s.members.iter().map(brief).collect() };
        let f = |s: &Scaf| -> Vec<String> { funs(s).iter().map(|f| f.name.clone()).collect() };
        w.stat_n("names compared", want.members.len() as u64);
        w.stat_n("revert tests", f(want).iter().filter(|n| n.contains("Revert")).count() as u64);
        diff("test names", &f(want), &f(have))?;
        let mut a = list(want);
        let mut b = list(have);
        a.sort();
        b.sort();
        diff("names", &a, &b)?;
        diff("contract name", &[&want.contract], &[&have.contract])
    })
}

pub fn c04(w: &mut W, r: &mut Rng, _: u64) -> Res<()> {
    let flags = Flags { skip_mods: r.pct(10), ..random_flags(r) };
    run_judge(w, r, &flags, |w, _, want, have, _| {
        let mods = |s: &Scaf| -> Vec<String> {
            s.members.iter().filter(|m| m.is_mod()).map(|m| m.name().to_string()).collect()
        };
        w.stat_n("modifiers", mods(want).len() as u64);
        diff("modifier definitions", &mods(want), &mods(have))?;
        let (a, b) = (funs(want), funs(have));
        for (x, y) in a.iter().zip(&b) {
            w.stat_n("modifiers applied", x.mods.len() as u64);
            if x.mods != y.mods {
                return bad(format!("{} should carry modifiers {:?}, carries {:?}", x.name, x.mods, y.mods));
            }
        }
        if a.len() != b.len() {
            return bad(format!("{} tests expected, {} found", a.len(), b.len()));
        }
        // Where they are defined.
        let kinds = |s: &Scaf| -> Vec<bool> { s.members.iter().map(|m| m.is_mod()).collect() };
        diff("positions of the modifiers (true) among the tests", &kinds(want), &kinds(have))
    })
}

pub fn c05(w: &mut W, r: &mut Rng, _: u64) -> Res<()> {
    let flags = Flags { skip_mods: r.pct(20), vm_skip: r.pct(50), version: None };
    run_judge(w, r, &flags, |w, _, want, have, _| {
        let (a, b) = (funs(want), funs(have));
        for (x, y) in a.iter().zip(&b) {
            w.stat_n("comment lines", x.comments.len() as u64);
            diff(&format!("comments of {}", x.name), &x.comments, &y.comments)?;
            if x.skip != y.skip {
                return bad(format!("{}: `vm.skip(true);` expected: {}, found: {}", x.name, x.skip, y.skip));
            }
        }
        if a.len() != b.len() {
            return bad(format!("{} tests expected, {} found", a.len(), b.len()));
        }
        Ok(())
    })
}

fn check_form(text: &str, have: &Scaf, flags: &Flags) -> Res<()> {
    let mut seen = HashSet::new();
    // A contract named like a reserved word is outside the property.
    if !sol::legal_name(&have.contract) && !sol::RESERVED.contains(&have.contract.as_str()) {
        return bad(format!("the contract's name `{}` is not legal", have.contract));
    }
    for m in &have.members {
        if !sol::legal_name(m.name()) {
            return bad(format!("`{}` is not a legal name", m.name()));
        }
        if !seen.insert(m.name()) {
            return bad(format!("two members are named `{}`", m.name()));
        }
    }
    let version = flags.version.clone().unwrap_or("0.8.0".into());
    if have.pragma.split_whitespace().collect::<String>() != version.split_whitespace().collect::<String>() {
        return bad(format!("the pragma is `{}`", have.pragma));
    }
    if have.import != flags.vm_skip || have.is_test != flags.vm_skip {
        return bad(format!("import present: {}, inherits Test: {}", have.import, have.is_test));
    }
    if !text.ends_with("}\n") {
        return bad("the file does not end with one newline after the contract");
    }
    for (i, l) in text.lines().enumerate() {
        if l.trim_end() != l {
            return bad(format!("line {} has trailing blanks", i + 1));
        }
    }
    Ok(())
}

/// C06: scaffold, look at the text, and run the tool's own formatter over it.
pub fn c06(w: &mut W, r: &mut Rng, _: u64) -> Res<()> {
    let flags = random_flags(r);
    let cases: Vec<Case> = (0..12).map(|_| gen_hostile(r)).collect();
    let args = flag_args(&flags);
    let d = w.fresh()?;
    let names: Vec<String> = (0..cases.len()).map(|i| format!("s{i}.tree")).collect();
    for (n, c) in names.iter().zip(&cases) {
        write(&d.join(n), &c.text)?;
    }
    let mut a = vec!["scaffold".to_string(), "-w".to_string()];
    a.extend(args.clone());
    a.extend(names.clone());
    let cmd = format!("bulloak {}", a.join(" "));
    let o = w.run(&d, &a)?;
    if let Some(c) = o.crash() {
        let mut f = bad::<()>(format!("scaffold {c}")).unwrap_err().cmd(&cmd);
        for (n, c) in names.iter().zip(&cases) {
            f = f.file(n, c.text.as_bytes());
        }
        return Err(f);
    }
    let mut before = vec![];
    let mut ok = vec![];
    for (n, c) in names.iter().zip(&cases) {
        let p = sol_of(&d.join(n));
        let Ok(text) = std::fs::read_to_string(&p) else {
            w.stat("rejected specs");
            before.push(None);
            continue;
        };
        let res = parsed(&text).and_then(|have| check_form(&text, &have, &flags));
        with_case(res, c, Some(&text), &cmd)?;
        w.stat("accepted specs");
        ok.push(n.clone());
        before.push(Some(text));
    }
    if !ok.is_empty() {
        let mut a = vec!["check".to_string(), "--fix".to_string()];
        if flags.skip_mods {
            a.push("-m".into());
        }
        a.extend(ok.clone());
        let o = w.run(&d, &a)?;
        let clean = o.crash().is_none() && o.code == Some(0) && o.err().trim().is_empty();
        for ((n, c), b) in names.iter().zip(&cases).zip(&before) {
            let Some(b) = b else { continue };
            let after = read(&sol_of(&d.join(n)))?;
            if &after != b {
                let f = bad(format!(
                    "`check --fix` changes the scaffolded file: {}",
                    first_line_diff(b, &after)
                ));
                return with_case(f.map_err(|f| f.file("after.t.sol", after.as_bytes())), c, Some(b), &cmd);
            }
            if !clean && ok.len() == 1 {
                return with_case(
                    bad(format!("`check --fix` on the scaffolded file: {:?} {}", o.code, o.err())),
                    c,
                    Some(b),
                    &cmd,
                );
            }
        }
        if !clean {
            // Find the culprit.
            for ((n, c), b) in names.iter().zip(&cases).zip(&before) {
                let Some(b) = b else { continue };
                let mut a = vec!["check".to_string(), "--fix".to_string()];
                if flags.skip_mods {
                    a.push("-m".into());
                }
                a.push(n.clone());
                let o = w.run(&d, &a)?;
                if o.code != Some(0) || !o.err().trim().is_empty() || o.crash().is_some() {
                    return with_case(
                        bad(format!("`check --fix` on the scaffolded file: {:?} {}", o.code, o.err())),
                        c,
                        Some(b),
                        &cmd,
                    );
                }
            }
            return bad(format!("`check --fix` on scaffolded files: {:?} {}", o.code, o.err()));
        }
        if !o.out().contains("success: 0 issues fixed") && !o.out().contains("No issues found") {
            return bad(format!("`check --fix` on scaffolded files says {}", o.out()));
        }
    }
    for (c, b) in cases.iter().zip(&before) {
        w.eval(&format!("{}{:?}", c.text, flags), b.is_some());
        w.sample(|| describe(c));
    }
    w.drop_dir(&d);
    Ok(())
}

pub fn first_line_diff(a: &str, b: &str) -> String {
    let (x, y): (Vec<&str>, Vec<&str>) = (a.lines().collect(), b.lines().collect());
    for i in 0..x.len().max(y.len()) {
        if x.get(i) != y.get(i) {
            return format!("line {}: {:?} became {:?}", i + 1, x.get(i), y.get(i));
        }
    }
    format!("{} bytes became {} bytes (line endings)", a.len(), b.len())
}

/// Specs that may collide, use reserved words, or vanish when sanitised.
fn gen_hostile(r: &mut Rng) -> Case {
    if r.pct(40) {
        return gen_case(r);
    }
    // Specs that may or may not be accepted.
    if r.pct(30) {
        let text = if r.pct(50) {
            String::from_utf8(crate::c_fuzz::fuzz_spec(r).0).ok()
        } else {
            crate::c_reject::defect(r).map(|d| d.text)
        };
        if let Some(text) = text {
            // Letters beyond ASCII are outside the property.
            let keep = |c: char| c.is_ascii() || c.is_whitespace() || "├└─│→€—…".contains(c);
            let text: String = text.chars().map(|c| if keep(c) { c } else { 'x' }).collect();
            return Case { spec: Spec { trees: vec![] }, text };
        }
    }
    let g = Gen { trees: if r.pct(40) { r.range(2, 4) } else { 1 }, budget: r.range(1, 14), ..Gen::random(r) };
    let mut s = spec::gen_spec(r, &g);
    const BAD: &[&str] = &[
        "uint256", "contract", "'", "--", "_", "\"", "revert", "9", "mapping", "assembly", "is", "true", "Test", "vm",
        "test_Foo", "if", "-", "function", "return", "hex", "unicode",
    ];
    // Contract names.
    if r.pct(50) {
        let n = (*r.pick(&[
            "contract", "Test", "9Foo", "if", "uint256", "Foo Bar", "Foo::", "::x", "_", "$", "'", "->", "vm",
            "is", "mapping", "hex", "Foo-Bar", "F.b", "A\"B", "(x)", "interface", "library", "address", "this", "super",
        ]))
        .to_string();
        for t in &mut s.trees {
            t.contract = n.clone();
        }
    }
    // Titles made of odd words, and copies that may collide.
    fn walk(ns: &mut [Node], r: &mut Rng) {
        for n in ns {
            match n {
                Node::Cond(c) => {
                    if r.pct(25) {
                        c.words = (0..r.range(1, 2)).map(|_| (*r.pick(BAD)).to_string()).collect();
                    }
                    walk(&mut c.kids, r);
                }
                Node::Act(a) => {
                    if r.pct(15) {
                        a.words = (0..r.range(1, 2)).map(|_| (*r.pick(BAD)).to_string()).collect();
                    }
                }
            }
        }
    }
    for t in &mut s.trees {
        walk(&mut t.items, r);
        if r.pct(20) {
            let i = r.below(t.items.len());
            let mut n = t.items[i].clone();
            if let Node::Cond(c) = &mut n {
                c.words.insert(0, (*r.pick(&["'", "\"", "-"])).to_string());
            }
            t.items.push(n);
        }
        // An action named like the test of a condition.
        if r.pct(10) {
            let mut names = vec![];
            spec::each_cond(&t.items, &mut |c| names.extend(model::cond_test_name(c, "")));
            if !names.is_empty() {
                let word = r.pick(&names).trim_start_matches("test_").to_string();
                let a = Act { kw: "it".into(), words: vec![word], descs: vec![], loc: Loc::default() };
                let at = r.below(t.items.len() + 1);
                t.items.insert(at, Node::Act(a));
            }
        }
    }
    // A test in two trees.
    if s.trees.len() > 1 && r.pct(25) {
        let n = r.pick(&s.trees[0].items).clone();
        s.trees[1].func = s.trees[0].func.clone();
        s.trees[1].items.push(n);
    }
    let lay = if r.pct(70) { Layout::plain() } else { Layout::random(r) };
    case_of(s, &lay, r)
}

/// C08: several layouts of the same tree.
pub fn c08(w: &mut W, r: &mut Rng, _: u64) -> Res<()> {
    let flags = if r.pct(30) { random_flags(r) } else { Flags::none() };
    let args = flag_args(&flags);
    let cmd = format!("bulloak scaffold -w {} spec.tree", args.join(" "));
    let mut groups: Vec<Vec<Case>> = vec![];
    for _ in 0..8 {
        let g = Gen::random(r);
        let s = spec::gen_spec(r, &g);
        let mut v = vec![case_of(s.clone(), &Layout::plain(), r)];
        for _ in 0..3 {
            let mut s = s.clone();
            if r.pct(40) {
                recase(&mut s, r);
            }
            let mut lay = Layout::random(r);
            if r.pct(30) {
                lay = one_knob(r);
            }
            v.push(case_of(s, &lay, r));
        }
        groups.push(v);
    }
    let texts: Vec<&str> = groups.iter().flatten().map(|c| c.text.as_str()).collect();
    let got = scaffold_batch(w, &texts, &args)?;
    let mut it = got.iter();
    for g in &groups {
        let outs: Vec<&Got> = g.iter().map(|_| it.next().unwrap()).collect();
        let base = accepted(outs[0]);
        let base = with_case(base, &g[0], None, &cmd)?;
        let b = with_case(parsed(base), &g[0], Some(base), &cmd)?;
        for (c, o) in g.iter().zip(&outs).skip(1) {
            let res = (|| {
                let t = accepted(o)?;
                let same_text = |a: &Spec, b: &Spec| {
                    // Descriptions keep their indentation and keywords their case.
                    model::scaffold(a, &flags)
                        .members
                        .iter()
                        .zip(&model::scaffold(b, &flags).members)
                        .all(|(x, y)| match (x, y) {
                            (Mem::Fun(x), Mem::Fun(y)) => x.comments == y.comments,
                            _ => true,
                        })
                };
                if same_text(&g[0].spec, &c.spec) {
                    w.stat("pairs compared byte for byte");
                    if t != base {
                        return bad(format!("the layout changes the code: {}", first_line_diff(base, t)));
                    }
                    return Ok(());
                }
                w.stat("pairs compared up to description indentation and keyword case");
                let mut x = strip_line(&b);
                let mut y = strip_line(&parsed(t)?);
                for m in x.members.iter_mut().chain(&mut y.members) {
                    if let Mem::Fun(f) = m {
                        for c in &mut f.comments {
                            *c = c.trim_start().to_lowercase();
                        }
                    }
                }
                diff("members under two layouts", &x.members, &y.members)?;
                x.members.clear();
                y.members.clear();
                diff("file under two layouts", &[x], &[y])
            })();
            with_case(res, c, o.sol.as_deref(), &cmd)
                .map_err(|f| f.file("other.tree", g[0].text.as_bytes()).file("other.t.sol", base.as_bytes()))?;
            w.eval(&c.text, c.text != g[0].text);
            w.sample(|| describe(c));
        }
    }
    Ok(())
}

/// The plain layout with one thing changed.
fn one_knob(r: &mut Rng) -> Layout {
    let mut l = Layout::plain();
    match r.below(16) {
        0 => l.crlf = if r.pct(50) { 100 } else { 50 },
        1 => l.final_newline = false,
        2 => l.tabs = true,
        3 => l.guides = false,
        4 => l.dashes = size(r, 12) - 1,
        5 => l.gap = size(r, 12) - 1,
        6 => l.indent = size(r, 16),
        7 => l.base = size(r, 40),
        8 => l.comment_lines = 60,
        9 => l.trailing_comments = 80,
        10 => l.trailing_space = 80,
        11 => l.wide_gaps = 80,
        12 => l.leading_blank = size(r, 9),
        13 => l.trailing_blank = size(r, 9),
        14 => l.sep_blank = size(r, 9),
        _ => l.blank_like = 30,
    }
    l
}

/// Changes the case of the first letter of some keywords.
fn recase(s: &mut Spec, r: &mut Rng) {
    fn kw(k: &mut String, r: &mut Rng) {
        if r.pct(50) {
            *k = if k.starts_with(|c: char| c.is_uppercase()) {
                model::lower_first(k)
            } else {
                model::upper_first(k)
            };
        }
    }
    fn walk(ns: &mut [Node], r: &mut Rng) {
        for n in ns {
            match n {
                Node::Cond(c) => {
                    kw(&mut c.kw, r);
                    walk(&mut c.kids, r);
                }
                Node::Act(a) => {
                    // Any letter of `it`: it appears in comments only.
                    if r.pct(50) {
                        a.kw = (*r.pick(&["it", "It", "iT", "IT"])).to_string();
                    }
                }
            }
        }
    }
    for t in &mut s.trees {
        walk(&mut t.items, r);
    }
}

/// A condition with a modifier.
fn pooled(r: &mut Rng, k: usize) -> Node {
    let act = Act { kw: "it".into(), words: vec!["works".into()], descs: vec![], loc: Loc::default() };
    let cond = |word: String, kids| {
        Node::Cond(Cond { kw: "when".into(), words: vec![word], kids, loc: Loc::default() })
    };
    let mut kids = vec![cond(format!("inner{k}"), vec![Node::Act(act.clone())])];
    if r.pct(30) {
        kids.push(Node::Act(act));
    }
    cond(format!("pool{k}"), kids)
}

/// C10: each tree alone against all of them together, and the rejections.
pub fn c10(w: &mut W, r: &mut Rng, i: u64) -> Res<()> {
    if i % 5 == 4 {
        return c10_reject(w, r);
    }
    let flags = if r.pct(30) { random_flags(r) } else { Flags::none() };
    let args = flag_args(&flags);
    let cmd = format!("bulloak scaffold -w {} spec.tree", args.join(" "));
    let mut texts: Vec<String> = vec![];
    let mut cases: Vec<Case> = vec![];
    for _ in 0..6 {
        let mut g = Gen::random(r);
        g.trees = if r.pct(60) { r.range(2, 4) } else { size(r, 20).max(2) };
        let mut s = spec::gen_spec(r, &g);
        if r.below(150) == 0 {
            s.trees.truncate(3);
            // Trees that share hundreds of conditions.
            let n = r.range(60, 280);
            let pool: Vec<Node> = (0..n).map(|k| pooled(r, k)).collect();
            for t in &mut s.trees {
                let skip = r.below(3) * r.below(n);
                let mut mine: Vec<Node> = pool.iter().skip(skip).cloned().collect();
                if r.pct(30) {
                    r.shuffle(&mut mine);
                }
                t.items.extend(mine);
            }
            w.stat("several trees that share many modifiers");
        }
        let c = case_of(s, &Layout::random(r), r);
        texts.push(c.text.clone());
        for t in &c.spec.trees {
            let mut one = Spec { trees: vec![t.clone()] };
            one.trees[0].func = None;
            let mut lay = Layout::plain();
            lay.indent = 4;
            texts.push(spec::render(&mut one, &lay, r));
        }
        cases.push(c);
    }
    let refs: Vec<&str> = texts.iter().map(|s| s.as_str()).collect();
    let got = scaffold_batch(w, &refs, &args)?;
    let mut k = 0;
    for c in &cases {
        let whole = &got[k];
        let parts = &got[k + 1..k + 1 + c.spec.trees.len()];
        k += 1 + c.spec.trees.len();
        let res = (|| {
            let t = accepted(whole)?;
            let have = parsed(t)?;
            let mut want: Vec<Mem> = vec![];
            let mut seen = HashSet::new();
            for (tree, p) in c.spec.trees.iter().zip(parts) {
                let alone = parsed(accepted(p)?)?;
                let prefix = model::upper_first(&model::sanitize(tree.func.as_deref().unwrap()));
                for m in alone.members {
                    match m {
                        Mem::Mod { name, .. } => {
                            if seen.insert(name.clone()) {
                                want.push(Mem::Mod { name, line: 0 });
                            }
                        }
                        Mem::Fun(mut f) => {
                            let rest = f.name.strip_prefix("test_").unwrap_or(&f.name).to_string();
                            f.name = format!("test_{prefix}{rest}");
                            f.line = 0;
                            f.comments = f.comments.iter().map(|c| c.trim_start().to_string()).collect();
                            want.push(Mem::Fun(f));
                        }
                    }
                }
            }
            let mut have = strip_line(&have);
            for m in &mut have.members {
                if let Mem::Fun(f) = m {
                    f.comments = f.comments.iter().map(|c| c.trim_start().to_string()).collect();
                }
            }
            diff("members of the combined contract", &want, &have.members)?;
            diff("contract name", &[model::contract_name(&c.spec)], &[have.contract.clone()])?;
            w.stat_n("trees combined", c.spec.trees.len() as u64);
            // Shared modifiers are the interesting part.
            let total: usize = parts.iter().filter_map(|p| p.sol.as_ref()).map(|s| s.matches("modifier ").count()).sum();
            let now = have.members.iter().filter(|m| m.is_mod()).count();
            w.stat_n("modifiers shared between trees", total.saturating_sub(now) as u64);
            Ok(())
        })();
        with_case(res, c, whole.sol.as_deref(), &cmd)?;
        w.eval(&model::spec_shape(&c.spec), c.spec.trees.len() > 1);
        w.sample(|| describe(c));
    }
    Ok(())
}

/// Files of several trees that must be rejected.
fn c10_reject(w: &mut W, r: &mut Rng) -> Res<()> {
    let mut cases = vec![];
    for _ in 0..16 {
        let mut g = Gen::random(r);
        g.trees = if r.pct(70) { r.range(2, 4) } else { size(r, 12).max(2) };
        let mut s = spec::gen_spec(r, &g);
        let n = s.trees.len();
        let k = r.below(n);
        let what = r.below(5);
        let want = match what {
            0 => {
                s.trees[k].func = None;
                vec!["separator missing".to_string()]
            }
            1 => {
                s.trees[k].contract = String::new();
                // A spec whose first contract is missing may also mismatch.
                vec!["contract name missing".to_string(), "contract name mismatch".to_string()]
            }
            2 => {
                let k = 1 + r.below(n - 1);
                s.trees[k].contract = crate::c_reject::other_name(r, &s.trees[0].contract);
                vec!["contract name mismatch".to_string()]
            }
            _ => {
                // The same test in two trees of the same function.
                let from = r.below(n);
                let to = (from + 1 + r.below(n - 1)) % n;
                let f = s.trees[from].func.clone();
                let item = s.trees[from].items[r.below(s.trees[from].items.len())].clone();
                let t = &mut s.trees[to];
                let mut f2 = f.clone().unwrap();
                if r.pct(30) {
                    f2 = model::upper_first(&f2);
                }
                t.func = Some(f2);
                let items = vec![item];
                t.items = items;
                // A condition without its own test shares nothing but modifiers.
                let ms = model::members(&s);
                let mut seen = HashSet::new();
                if ms.iter().filter(|m| !m.is_mod()).all(|m| seen.insert(m.name().to_string())) {
                    continue;
                }
                vec!["found more than one test named".to_string()]
            }
        };
        let c = case_of(s, &Layout::random(r), r);
        cases.push((c, want));
    }
    let texts: Vec<&str> = cases.iter().map(|c| c.0.text.as_str()).collect();
    let got = scaffold_batch(w, &texts, &[])?;
    for ((c, want), g) in cases.iter().zip(&got) {
        let res = (|| {
            if let Some(c) = &g.crash {
                return bad(format!("a file with inconsistent trees: scaffold {c}"));
            }
            if g.sol.is_some() {
                return bad(format!("a file with inconsistent trees was accepted, expected: {}", want[0]));
            }
            let Some(e) = &g.err else { return bad("no diagnosis for a file with inconsistent trees") };
            let kinds: Vec<&str> = e.diags.iter().map(|d| d.kind.as_str()).collect();
            if !kinds.iter().any(|k| want.iter().any(|x| k.contains(x.as_str()))) {
                return bad(format!("expected the diagnosis `{}`, got {:?}", want[0], kinds));
            }
            Ok(())
        })();
        with_case(res, c, g.sol.as_deref(), "bulloak scaffold -w spec.tree")?;
        w.stat(&format!("rejected: {}", want[0]));
        w.eval(&c.text, true);
    }
    Ok(())
}

/// C15: every combination of flags on the same specs.
pub fn c15(w: &mut W, r: &mut Rng, _: u64) -> Res<()> {
    let cases: Vec<Case> = (0..5).map(|_| gen_case(r)).collect();
    let d = w.fresh()?;
    let names: Vec<String> = (0..cases.len()).map(|i| format!("s{i}.tree")).collect();
    for (n, c) in names.iter().zip(&cases) {
        write(&d.join(n), &c.text)?;
    }
    let version = versions(r);
    let mut outs: Vec<(Flags, Vec<String>)> = vec![];
    let mut combos: Vec<Flags> = vec![];
    for bits in 0..8u8 {
        combos.push(Flags {
            vm_skip: bits & 1 != 0,
            skip_mods: bits & 2 != 0,
            version: if bits & 4 != 0 { Some(version.clone()) } else { None },
        });
    }
    let k = r.below(7) + 1;
    for f in [0, k, r.below(7) + 1].map(|i| combos[i].clone()) {
        // Random spelling and order of the flags.
        let mut groups: Vec<Vec<String>> = vec![];
        let pick = |r: &mut Rng, a: &str, b: &str| if r.pct(50) { a.to_string() } else { b.to_string() };
        if f.vm_skip {
            groups.push(vec![pick(r, "-S", "--vm-skip")]);
        }
        if f.skip_mods {
            groups.push(vec![pick(r, "-m", "--skip-modifiers")]);
        }
        if let Some(v) = &f.version {
            groups.push(match r.below(3) {
                0 => vec!["-s".into(), v.clone()],
                1 => vec!["--solidity-version".into(), v.clone()],
                _ => vec![format!("--solidity-version={v}")],
            });
        }
        let writes = r.pct(60);
        if writes {
            groups.push(vec![pick(r, "-w", "--write-files")]);
            groups.push(vec![pick(r, "-f", "--force-write")]);
        }
        groups.push(names.clone());
        r.shuffle(&mut groups);
        let args: Vec<String> = std::iter::once("scaffold".to_string()).chain(groups.concat()).collect();
        let o = w.run(&d, &args)?;
        let cmd = format!("bulloak {}", args.join(" "));
        let fail = |m: String| {
            let mut f = bad::<()>(m).unwrap_err().cmd(&cmd);
            for (n, c) in names.iter().zip(&cases) {
                f = f.file(n, c.text.as_bytes());
            }
            f
        };
        if o.crash().is_some() || o.code != Some(0) {
            return Err(fail(format!("scaffold fails: {:?} {}", o.code, o.err())));
        }
        let texts: Vec<String> = if writes {
            let mut v = vec![];
            for n in &names {
                match std::fs::read_to_string(sol_of(&d.join(n))) {
                    Ok(t) => v.push(t),
                    Err(_) => return Err(fail(format!("no code was written for {n}"))),
                }
                let _ = std::fs::remove_file(sol_of(&d.join(n)));
            }
            if !o.stdout.is_empty() {
                return Err(fail(format!("code is printed although -w is given: {}", o.out())));
            }
            v
        } else {
            split_stdout(&String::from_utf8_lossy(&o.stdout), names.len()).ok_or_else(|| {
                fail(format!("stdout does not hold the code of {} specs", names.len()))
            })?
        };
        w.stat(if writes { "written" } else { "printed" });
        outs.push((f, texts));
    }
    for (ci, c) in cases.iter().enumerate() {
        let base = &outs[0].1[ci];
        let res = parsed(base);
        let b = strip_line(&with_case(res, c, Some(base), "bulloak scaffold spec.tree")?);
        for (f, texts) in &outs[1..] {
            let t = &texts[ci];
            let cmd = format!("bulloak scaffold {} spec.tree", flag_args(f).join(" "));
            let res = (|| {
                let have = strip_line(&parsed(t)?);
                let mut want = b.clone();
                want.import = f.vm_skip;
                want.is_test = f.vm_skip;
                if f.skip_mods {
                    want.members.retain(|m| !m.is_mod());
                }
                for m in &mut want.members {
                    if let Mem::Fun(x) = m {
                        x.skip = f.vm_skip;
                    }
                }
                if let Some(v) = &f.version {
                    want.pragma = v.clone();
                    if !t.contains(&format!("pragma solidity {v};")) {
                        return bad(format!("the pragma does not contain `{v}` verbatim: {}", have.pragma));
                    }
                }
                diff("members under the flags", &want.members, &have.members)?;
                want.members.clear();
                let mut have = have;
                have.members.clear();
                diff("file under the flags", &[want], &[have])?;
                // The text must agree line for line as well.
                let lines = |s: &str| -> Vec<String> {
                    s.lines()
                        .map(|l| l.trim().to_string())
                        .filter(|l| {
                            !l.is_empty()
                                && l != "vm.skip(true);"
                                && !l.starts_with("import ")
                                && !l.starts_with("pragma ")
                        })
                        .collect()
                };
                if f.vm_skip && !f.skip_mods {
                    let a: Vec<String> = lines(base);
                    let b: Vec<String> = lines(t)
                        .into_iter()
                        .map(|l| if l.starts_with("contract ") { l.replace(" is Test", "") } else { l })
                        .collect();
                    diff("lines under vm-skip", &a, &b)?;
                } else if !f.vm_skip && !f.skip_mods {
                    diff("lines under a version", &lines(base), &lines(t))?;
                }
                Ok(())
            })();
            with_case(res, c, Some(t), &cmd).map_err(|x| x.file("without-flags.t.sol", base.as_bytes()))?;
            w.stat(&format!("combination {}", flag_args(&Flags { version: f.version.as_ref().map(|_| "V".into()), ..f.clone() }).join(" ")));
            w.eval(&format!("{}{:?}", c.text, f), *f != Flags::none());
            w.sample(|| describe(c));
        }
    }
    // check with and without -m.
    c15_check(w, r, &d, &names, &cases)?;
    w.drop_dir(&d);
    Ok(())
}

fn c15_check(w: &mut W, r: &mut Rng, d: &std::path::Path, names: &[String], cases: &[Case]) -> Res<()> {
    // Drop some members from scaffolded files, then compare both forms.
    let mut a = vec!["scaffold".to_string(), "-w".into(), "-f".into()];
    if r.pct(50) {
        a.push("-m".into());
    }
    a.extend(names.iter().cloned());
    w.run(d, &a)?;
    for n in names {
        let p = sol_of(&d.join(n));
        let Ok(t) = std::fs::read_to_string(&p) else { continue };
        if let Ok(f) = sol::parse_file(&t) {
            let mut t2 = t.clone();
            if let Some(c) = f.first_contract() {
                let mut texts: Vec<&str> = c.parts.iter().map(|m| &t[m.start..m.end]).collect();
                while texts.len() > 1 && r.pct(50) {
                    let (i, j) = (r.below(texts.len()), r.below(texts.len()));
                    texts.swap(i, j);
                }
                for (m, x) in c.parts.iter().zip(texts).rev() {
                    t2.replace_range(m.start..m.end, if r.pct(25) { "" } else { x });
                }
                if r.pct(20) {
                    t2 = t2.replacen(&format!("contract {}", c.name), "contract Renamed", 1);
                }
            }
            write(&p, &t2)?;
        }
    }
    let mut x = vec!["check".to_string()];
    x.extend(names.iter().cloned());
    let all = w.run(d, &x)?;
    x.insert(if r.pct(50) { 1 } else { x.len() }, (if r.pct(50) { "-m" } else { "--skip-modifiers" }).to_string());
    let skip = w.run(d, &x)?;
    if let Some(c) = all.crash().or(skip.crash()) {
        return bad(format!("check {c}"));
    }
    let (a, b) = (run::parse_check_err(&all.err()), run::parse_check_err(&skip.err()));
    let key = |v: &run::Viol| format!("{} {:?} {}", v.msg, v.help, v.at);
    // The modifiers of each spec, by the reference model.
    let mods: Vec<HashSet<String>> = cases
        .iter()
        .map(|c| model::members(&c.spec).iter().filter(|m| m.is_mod()).map(|m| m.name().to_string()).collect())
        .collect();
    let is_mod = |v: &run::Viol| {
        let file = v.at.split(':').next().unwrap_or("");
        let name = v.msg.split('"').nth(1).unwrap_or("");
        v.msg.contains("is missing")
            && names.iter().zip(&mods).any(|(n, m)| n == file && m.contains(name))
    };
    let mut va: Vec<String> = a.viols.iter().filter(|v| !is_mod(v)).map(key).collect();
    let mut vb: Vec<String> = b.viols.iter().map(key).collect();
    va.sort();
    vb.sort();
    w.stat_n("check violations compared with and without -m", va.len() as u64);
    let res = diff("violations of `check --skip-modifiers` and the other ones of `check`", &va, &vb);
    let want_code = if vb.is_empty() { 0 } else { 1 };
    let res = res.and_then(|_| {
        if skip.code != Some(want_code) {
            return bad(format!("check -m exits with {:?} after {} violations", skip.code, vb.len()));
        }
        if !vb.is_empty() && b.failed != Some(vb.len()) {
            return bad(format!("check -m counts {:?} failed checks out of {}", b.failed, vb.len()));
        }
        Ok(())
    });
    res.map_err(|mut f| {
        f = f.cmd(&format!("bulloak {}", x.join(" ")));
        for (n, c) in names.iter().zip(cases) {
            f = f.file(n, c.text.as_bytes());
            if let Ok(b) = std::fs::read(sol_of(&d.join(n))) {
                f = f.file(&n.replace(".tree", ".t.sol"), &b);
            }
        }
        f.file("stderr-without.txt", &all.stderr).file("stderr-with.txt", &skip.stderr)
    })
}

/// Splits what `scaffold` prints for several specs.
pub fn split_stdout(s: &str, n: usize) -> Option<Vec<String>> {
    const LIC: &str = "// SPDX-License-Identifier: UNLICENSED\n";
    let mut v: Vec<String> = vec![];
    let mut pos: Vec<usize> = vec![];
    let mut from = 0;
    while let Some(i) = s[from..].find(LIC) {
        let at = from + i;
        // Only at the start of a line.
        if at == 0 || s.as_bytes()[at - 1] == b'\n' {
            pos.push(at);
        }
        from = at + LIC.len();
    }
    for (k, &p) in pos.iter().enumerate() {
        let e = pos.get(k + 1).copied().unwrap_or(s.len());
        v.push(format!("{}\n", s[p..e].trim_end_matches('\n')));
    }
    if pos.first() != Some(&0) || v.len() != n {
        return None;
    }
    Some(v)
}

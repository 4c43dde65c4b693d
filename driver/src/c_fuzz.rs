//! C01: whatever the bytes of the files are, the commands end by themselves.
use crate::c_check;
use crate::c_reject;
use crate::common::*;
use crate::engine::*;
use crate::model::Flags;
use crate::rng::Rng;
use crate::run::{self, Out};
use crate::sgen::{self, Marks, Style};
use crate::spec::{self, Layout};
use std::path::Path;

const NASTY: &[&str] = &[
    "├", "└", "│", "─", "├──", "└──", "\n", "\r\n", "\r", " ", "  ", "\t", "\u{a0}", "\u{2028}", "\u{feff}", "\u{0}", "\u{1}",
    "\u{7f}", "when", "given", "it", "When", "IT", "::", ":", "//", "/", "-", "_", "'", "\"", "\\", "{", "}", "(", ")", ";", "*/",
    "/*", "é", "日本", "😀", "e\u{301}", "\u{200b}", "\u{202e}", "İ", "ß", "ǆ", "ﬁ", "0", "9", "A", "#", "$", "%", "\u{85}", "\u{b}",
    "\u{3000}", "\n\n", "\n\n\n", "it it", "when when", "should revert", "revert", ".", ",", "@", "Foo::bar", "Foo", "\u{10ffff}",
    "ŉ", "ΐ", "ᾳ", "Ⅷ", "²", "½", "ª", "\u{1F1E6}\u{1F1E8}", "K", "ſ",
];

const SOUP: &[&str] = &[
    "├── ", "└── ", "│   ", "    ", "\n", "\n", "\n", "when ", "given ", "it ", "word ", "Foo", "Foo::bar", "::", "// c\n", "it should revert",
    "├─ ", "└", "├", "─", "a-b ", "x's ", "\n\n", "\t", "é ", "1 ", "When ", "Given ", "It ",
];

const SOL: &[&str] = &[
    "contract ", "abstract ", "interface ", "library ", "Foo ", "{", "}", "{", "}", "function ", "modifier ", "test_A", "(", ")", "external ",
    ";", "_;", "// c\n", "/* c */", "/// d\n", "\n", "uint256 x", "= ", "\"s\"", "'", "\"", "pragma solidity ^0.8.0;\n", "import \"a\";", "is ",
    "constructor", "struct S ", "enum E ", "event E", "error E", "using A for B", "assembly ", "if (a) ", "else ", "for (;;) ", "return ",
    "mapping(address => uint)", "unchecked ", "try a.b() ", "catch ", "é", "\u{0}", "/*", "*/", "<<", "hex\"00\"", "unicode\"é\"", ",", "[", "]",
    "vm.skip(true);", "returns (bool) ", "virtual ", "override ", "public ", "type T is uint;", "receive() ", "fallback() ", "emit ", "revert ",
    "new ", "delete ", "0x1", "1e18 ", "1 ether ", "?", ":", "=>", "->", ":=", "let ", "switch ", "case ", "default ", "do ", "while ", "throw",
    "contract Foo {", "function test_A() external {}", "modifier whenA() { _; }",
];

fn mutate(r: &mut Rng, text: &str, pool: &[&str], other: &str) -> Vec<u8> {
    let mut v: Vec<u8> = text.as_bytes().to_vec();
    let n = *r.pick(&[1, 1, 2, 3, 5, 8, 20]);
    for _ in 0..n {
        // Mostly at character boundaries.
        let at = |r: &mut Rng, v: &[u8]| {
            let mut i = r.below(v.len() + 1);
            if !r.pct(1) {
                while i < v.len() && v[i] & 0xC0 == 0x80 {
                    i += 1;
                }
            }
            i
        };
        match r.below(16) {
            0 | 1 | 2 => {
                let i = at(r, &v);
                let s = r.pick(pool).as_bytes().to_vec();
                v.splice(i..i, s);
            }
            3 | 4 => {
                let i = at(r, &v);
                let j = (i + r.range(1, 6)).min(v.len());
                let j = (j..v.len()).find(|&k| v[k] & 0xC0 != 0x80).unwrap_or(v.len());
                v.drain(i..j);
            }
            5 | 6 => {
                let i = at(r, &v);
                let j = (i + 1..v.len()).find(|&k| v[k] & 0xC0 != 0x80).unwrap_or(v.len());
                let s = r.pick(pool).as_bytes().to_vec();
                if i < j {
                    v.splice(i..j, s);
                }
            }
            7 => {
                let i = at(r, &v);
                v.truncate(i);
            }
            8 | 9 | 10 => {
                // Lines: drop, double, swap, reindent.
                let mut ls: Vec<Vec<u8>> = v.split(|&b| b == b'\n').map(|l| l.to_vec()).collect();
                let i = r.below(ls.len());
                match r.below(4) {
                    0 => {
                        ls.remove(i);
                    }
                    1 => {
                        let l = ls[i].clone();
                        let j = r.below(ls.len() + 1);
                        ls.insert(j, l);
                    }
                    2 => {
                        let j = r.below(ls.len());
                        ls.swap(i, j);
                    }
                    _ => {
                        let k = r.below(9);
                        let t = ls[i].iter().position(|&b| b != b' ').unwrap_or(0);
                        ls[i].splice(0..t, vec![b' '; k]);
                    }
                }
                v = ls.join(&b'\n');
            }
            11 => {
                // A piece of another file.
                let o = other.as_bytes();
                if !o.is_empty() {
                    let a = r.below(o.len());
                    let b = (a + r.range(1, 60)).min(o.len());
                    let i = at(r, &v);
                    v.splice(i..i, o[a..b].to_vec());
                }
            }
            12 => {
                let s = r.pick(pool).repeat(r.range(2, 300));
                let i = at(r, &v);
                v.splice(i..i, s.into_bytes());
            }
            13 => {
                if r.pct(15) && !v.is_empty() {
                    let i = r.below(v.len());
                    v[i] = r.below(256) as u8;
                }
            }
            14 => {
                let t = String::from_utf8_lossy(&v).into_owned();
                v = match r.below(5) {
                    0 => t.replace('\n', "\r\n"),
                    1 => t.replace("    ", "\t"),
                    2 => t.to_uppercase(),
                    3 => format!("\u{feff}{t}"),
                    _ => t.trim_end().to_string(),
                }
                .into_bytes();
            }
            _ => {
                let i = at(r, &v);
                let j = at(r, &v);
                let (i, j) = (i.min(j), i.max(j).min(i.min(j) + 200));
                let s = v[i..j].to_vec();
                let k = at(r, &v);
                v.splice(k..k, s);
            }
        }
        if v.len() > 60_000 {
            v.truncate(60_000);
        }
    }
    v
}

fn soup(r: &mut Rng, pool: &[&str], n: usize) -> Vec<u8> {
    let mut s = String::new();
    for _ in 0..r.range(1, n) {
        s.push_str(r.pick(pool));
    }
    s.into_bytes()
}

fn deep(r: &mut Rng, n: usize) -> String {
    let mut o = String::from("Deep\n");
    for i in 0..n {
        let kw = *r.pick(&["when", "given"]);
        o.push_str(&format!("{}└── {kw} level {i}\n", " ".repeat(i)));
    }
    if !r.pct(10) {
        o.push_str(&format!("{}└── it works\n", " ".repeat(n)));
    }
    o
}

fn spec_text(r: &mut Rng) -> String {
    if r.pct(20) {
        if let Some(d) = c_reject::defect(r) {
            return d.text;
        }
    }
    let g = spec::Gen::random(r);
    let mut s = spec::gen_spec(r, &g);
    let lay = if r.pct(50) { Layout::plain() } else { Layout::random(r) };
    spec::render(&mut s, &lay, r)
}

pub fn fuzz_spec(r: &mut Rng) -> (Vec<u8>, &'static str) {
    match r.below(40) {
        0 => {
            let n = *r.pick(&[0, 1, 3, 20, 200, 3000]);
            ((0..n).map(|_| r.below(256) as u8).collect(), "random bytes")
        }
        1..=5 => (soup(r, SOUP, 60), "tokens"),
        6 | 7 => (soup(r, NASTY, 40), "hostile characters"),
        8 => {
            let n = r.range(2, 300);
            (deep(r, n).into_bytes(), "deep nesting")
        }
        9 => {
            // One long line.
            let s = r.pick(NASTY).repeat(*r.pick(&[100, 5000, 40_000]));
            (format!("Foo\n└── {} {s}\n    └── it {s}", r.pick(&["when", "it", "given", ""])).into_bytes(), "long lines")
        }
        10 => (r.pick(NASTY).repeat(*r.pick(&[1, 2, 100, 20_000])).into_bytes(), "one character"),
        11..=15 => {
            // Titles that turn into nothing, or into something else.
            let t = |r: &mut Rng| {
                let n = r.below(4);
                (0..n).map(|_| *r.pick(NASTY)).filter(|w| !w.contains('\n') && !w.contains('\r')).collect::<Vec<_>>().join(if r.pct(50) {
                    " "
                } else {
                    ""
                })
            };
            let s = format!(
                "{}\n├── when {}\n│   └── it {}\n├── given {}\n│   ├── when {}\n│   │   └── it {}\n│   │       └── {}\n│   └── it {}\n└── it {}\n",
                if r.pct(50) { "Foo".into() } else { t(r) },
                t(r),
                t(r),
                t(r),
                t(r),
                t(r),
                t(r),
                t(r),
                t(r)
            );
            (s.into_bytes(), "odd titles")
        }
        16 | 17 => (spec_text(r).into_bytes(), "untouched"),
        _ => {
            let (a, b) = (spec_text(r), spec_text(r));
            (mutate(r, &a, NASTY, &b), "mutated specs")
        }
    }
}

fn fuzz_sol(r: &mut Rng, text: &str, other: &str) -> (Vec<u8>, &'static str) {
    match r.below(24) {
        0 => {
            let n = *r.pick(&[0, 1, 3, 20, 200, 3000]);
            ((0..n).map(|_| r.below(256) as u8).collect(), "random bytes")
        }
        1..=3 => (soup(r, SOL, 60), "tokens"),
        4 => {
            let n = r.range(1, 120);
            let s = match r.below(4) {
                0 => format!("contract Foo {{ function f() external {}{} }}", "{".repeat(n), "}".repeat(n)),
                1 => format!("contract Foo {{ uint x = {}1{}; }}", "(".repeat(n), ")".repeat(n)),
                2 => format!("contract Foo {{ function f() external {{ {} }} }}", "for (;;) ".repeat(n) + "b();"),
                _ => format!("contract Foo {{ uint x = {}1; }}", "-".repeat(n)),
            };
            (s.into_bytes(), "nested code")
        }
        5 => {
            // A contract that is all declarations of odd forms.
            let mut s = String::from(*r.pick(&["contract Foo {", "contract Foo is A, B(1) {", "library Foo {", "interface Foo {"]));
            for _ in 0..r.below(8) {
                s.push_str(*r.pick(&[
                    "function() external {}",
                    "fallback() external {}",
                    "constructor() {}",
                    "function f();",
                    "modifier m;",
                    "modifier m() virtual;",
                    ";",
                    "function f() external {} function f(uint a) external {}",
                    "receive() external payable {}",
                    "using A for *;",
                    "uint constant a = 1;",
                ]));
            }
            s.push('}');
            (s.into_bytes(), "odd declarations")
        }
        6..=8 => (text.as_bytes().to_vec(), "edited files"),
        _ => (mutate(r, text, SOL, other), "mutated files"),
    }
}

fn verdict(o: &Out, n: usize) -> Res<()> {
    if let Some(c) = o.crash() {
        return bad(c);
    }
    if o.code == Some(1) && o.stderr.is_empty() {
        return bad("exit status 1 without a message");
    }
    let _ = n;
    Ok(())
}

/// Specs in any state, for scaffold and check.
pub fn specs(w: &mut W, r: &mut Rng, i: u64) -> Res<()> {
    let xs: Vec<(Vec<u8>, &'static str)> = (0..16).map(|_| fuzz_spec(r)).collect();
    let d = w.fresh()?;
    let names: Vec<String> = (0..xs.len()).map(|k| format!("f{k}.tree")).collect();
    for (n, x) in names.iter().zip(&xs) {
        write(&d.join(n), &x.0)?;
    }
    let mut a: Vec<String> = vec!["scaffold".into()];
    if r.pct(30) {
        a.push("-S".into());
    }
    if r.pct(30) {
        a.push("-m".into());
    }
    if r.pct(15) {
        a.push("-s".into());
        a.push(if r.pct(70) {
            (*r.pick(&["", " ", "0.8.0", "^0.8.0;", "\n", "*/", "\"", "é", "// x", "0.8.0; contract X {}", "{", "a b c"])).to_string()
        } else {
            r.pick(NASTY).replace('\0', "")
        });
        // A value is not an option.
        if a.last().unwrap().starts_with('-') {
            a.truncate(a.len() - 2);
        }
    }
    let writes = r.pct(70);
    if writes {
        a.push((*r.pick(&["-w", "-wf"])).into());
    }
    let one = |w: &mut W, k: usize, a: &[String]| -> Res<Option<Fail>> {
        let mut b = a.to_vec();
        b.push(names[k].clone());
        let o = w.run(&d, &b)?;
        Ok(verdict(&o, 1).err().map(|f| {
            f.file("spec.tree", &xs[k].0).file("stderr.txt", &o.stderr).cmd(&format!("bulloak {}", b.join(" ")))
        }))
    };
    let find = |w: &mut W, a: &[String], what: String| -> Res<()> {
        for k in 0..xs.len() {
            if let Some(f) = one(w, k, a)? {
                return Err(f);
            }
        }
        bad(format!("files that work alone: {what}"))
    };
    let mut b = a.clone();
    b.extend(names.iter().cloned());
    let o = w.run(&d, b)?;
    if let Some(c) = o.crash() {
        return find(w, &a, c);
    }
    verdict(&o, xs.len())?;
    let e = run::parse_scaffold_err(&o.err());
    let failed = e.failed.unwrap_or(0);
    let mut done = 0;
    for (k, n) in names.iter().enumerate() {
        let said = e.files.iter().any(|f| &f.file == n);
        if writes {
            let made = sol_of(&d.join(n)).exists();
            if said == made {
                let f = bad::<()>(if said {
                    "a failed spec leaves a file"
                } else {
                    "neither code nor an error comes out of a spec"
                })
                .unwrap_err();
                return Err(f
                    .file("spec.tree", &xs[k].0)
                    .file("stderr.txt", &o.stderr)
                    .cmd(&format!("bulloak {} {n}", a.join(" "))));
            }
            done += made as usize;
        } else {
            done += !said as usize;
        }
        w.stat(&format!("specs: {}", xs[k].1));
        w.stat(if said { "specs with an error" } else { "specs with code" });
        if said {
            if let Some(x) = e.files.iter().find(|f| &f.file == n).and_then(|f| f.diags.first()) {
                let kind: String = x.kind.chars().filter(|c| !c.is_ascii_digit()).collect();
                let kind = kind.split('\'').next().unwrap_or("").trim().to_string();
                let kind = match kind.split_once("invalid identifier:") {
                    Some(_) => "invalid identifier".to_string(),
                    None => kind,
                };
                if kind.len() < 60 {
                    w.stat(&format!("error: {kind}"));
                }
            }
        }
        w.eval(&String::from_utf8_lossy(&xs[k].0), xs[k].1 != "untouched");
    }
    if done + failed != xs.len() || (failed > 0) != (o.code == Some(1)) {
        return bad(format!("{done} specs with code, {failed} failed, of {}; exit status {:?}", xs.len(), o.code));
    }
    // The same specs through check.
    if i % 2 == 0 {
        let mut b: Vec<String> = vec!["check".into()];
        if r.pct(50) {
            b.push("--fix".into());
        }
        if r.pct(30) {
            b.push("-m".into());
        }
        let mut c = b.clone();
        c.extend(names.iter().cloned());
        let o = w.run(&d, c)?;
        if let Some(c) = o.crash() {
            return find(w, &b, c);
        }
        verdict(&o, xs.len())?;
        w.stat_n("specs given to check", xs.len() as u64);
    }
    w.sample(|| String::from_utf8_lossy(&xs[0].0).into_owned());
    w.drop_dir(&d);
    Ok(())
}

/// Solidity files in any state, for check.
pub fn sols(w: &mut W, r: &mut Rng, _: u64) -> Res<()> {
    let flags = Flags { vm_skip: r.pct(20), skip_mods: r.pct(20), version: None };
    let bs = c_check::bases(w, r, 10, &flags)?;
    let d = w.fresh()?;
    let mut xs: Vec<(Vec<u8>, Vec<u8>, &'static str)> = vec![];
    let names: Vec<String> = (0..bs.len()).map(|k| format!("f{k}.tree")).collect();
    let mut prev = String::new();
    for b in &bs {
        let mut m = Marks(0);
        let ns = c_check::names_of(b);
        let mut f = b.file.clone();
        if r.pct(70) {
            c_check::embellish(&mut f, r, &mut m, &ns, true);
        }
        if r.pct(70) {
            c_check::damage(&mut f, r, &mut m, &ns);
        }
        let (text, _) = sgen::render(&f, &Style::random(r));
        let (mut sol, mut kind) = fuzz_sol(r, &text, &prev);
        while slow(&sol) {
            if kind == "edited files" {
                break;
            }
            (sol, kind) = fuzz_sol(r, &text, &prev);
        }
        prev = text;
        let spec = if r.pct(10) { fuzz_spec(r).0 } else { b.c.text.clone().into_bytes() };
        xs.push((spec, sol, kind));
    }
    let put = |d: &Path, k: usize| -> Res<()> {
        write(&d.join(&names[k]), &xs[k].0)?;
        write(&sol_of(&d.join(&names[k])), &xs[k].1)
    };
    for k in 0..xs.len() {
        put(&d, k)?;
    }
    let mut a: Vec<String> = vec!["check".into()];
    if r.pct(30) {
        a.push("-m".into());
    }
    match r.below(8) {
        0 | 1 => {}
        2 => a.extend(["--fix".to_string(), "--stdout".to_string()]),
        _ => a.push("--fix".into()),
    }
    // Twice: what the first run leaves is an input as well.
    for round in 0..2 {
        let mut b = a.clone();
        b.extend(names.iter().cloned());
        let o = w.run(&d, b)?;
        let res = verdict(&o, xs.len());
        if res.is_err() {
            for k in 0..xs.len() {
                put(&d, k)?;
                for _ in 0..=round {
                    let mut b = a.clone();
                    b.push(names[k].clone());
                    let o = w.run(&d, &b)?;
                    if let Err(f) = verdict(&o, 1) {
                        return Err(f
                            .file("spec.tree", &xs[k].0)
                            .file("spec.t.sol", &xs[k].1)
                            .file("stderr.txt", &o.stderr)
                            .cmd(&format!("bulloak {}", b.join(" "))));
                    }
                }
            }
            return res;
        }
        if round == 0 {
            let e = run::parse_check_err(&o.err());
            let unparsed = e.viols.iter().filter(|v| v.msg.contains("parsing the solidity file")).count();
            w.stat_n("Solidity files that do not parse", unparsed as u64);
        }
    }
    for x in &xs {
        w.stat(&format!("Solidity: {}", x.2));
        w.eval(&String::from_utf8_lossy(&x.1), x.2 != "edited files");
    }
    w.sample(|| String::from_utf8_lossy(&xs[0].1).into_owned());
    w.drop_dir(&d);
    Ok(())
}

/// Thirty conditionals in each other, for `check --fix`: the formatter takes
/// twice as long for each of them (see known-findings.txt).
fn nested_ifs(w: &mut W) -> Res<()> {
    let d = w.fresh()?;
    let sol = format!("contract Foo {{ function f() external {{ {}b(); }} }}\n", "if (a) ".repeat(30));
    write(&d.join("spec.tree"), "Foo\n└── it works\n")?;
    write(&d.join("spec.t.sol"), &sol)?;
    let o = w.run_env(&d, ["check", "--fix", "spec.tree"], vec![(run::CPU_ENV.into(), "4".into())])?;
    w.eval(&sol, true);
    w.stat("thirty nested conditionals");
    let res = verdict(&o, 1);
    w.drop_dir(&d);
    res.map_err(|f| {
        let f = f.file("spec.t.sol", sol.as_bytes()).cmd("bulloak check --fix spec.tree");
        if o.signal == Some(24) { f.sig("check-fix-30-nested-ifs-timeout") } else { f }
    })
}

/// The formatter's time doubles with every conditional or ternary operator
/// in another: files with many of them are left out.
fn slow(sol: &[u8]) -> bool {
    let t = String::from_utf8_lossy(sol);
    t.matches("if").count() + t.matches('?').count() > 9
}

/// Odd command lines, and big files.
pub fn shapes(w: &mut W, r: &mut Rng, i: u64) -> Res<()> {
    let d = w.fresh()?;
    if i == 0 {
        return nested_ifs(w);
    }
    let (text, what): (Vec<u8>, &str) = match i % 11 {
        0 => {
            let n = if w.o.thorough() { 2000 } else { 500 };
            let mut s = String::from("Wide\n");
            for k in 0..n {
                s.push_str(&format!("├── when thing number {k} happens\n│   └── it should do {k}\n"));
            }
            s.push_str("└── it ends");
            (s.into_bytes(), "many conditions")
        }
        8 => (format!("Foo\n└── it {}\n", r.pick(&["a", "é", "│", "a ", "\t"]).repeat(300_000)).into_bytes(), "a line of 300 kB"),
        2 => (r.pick(&["\n", "│", "├", "├── ", " ", "// c\n", "\r\n", "Foo\n\n"]).repeat(200_000).into_bytes(), "a repeated piece"),
        3 => (deep(r, 300).into_bytes(), "300 levels"),
        4 => {
            let n = if w.o.thorough() { 1000 } else { 300 };
            ((0..n).map(|k| format!("Foo::f{k}\n└── it a{k}\n\n")).collect::<String>().into_bytes(), "many trees")
        }
        5 => {
            let n = r.range(200, 1500);
            let mut s = String::from("Foo\n");
            for _ in 0..n {
                s.push_str("├── when a\n│   └── it x\n");
            }
            s.push_str("└── it q");
            (s.into_bytes(), "many duplicates")
        }
        6 => {
            let mut v = vec![0u8; r.range(1, 400_000)];
            for b in v.iter_mut() {
                *b = r.below(256) as u8;
            }
            (v, "many random bytes")
        }
        7 => {
            let n = if w.o.thorough() { 3000 } else { 1000 };
            let mut s = String::from("Foo\n└── when a\n");
            for k in 0..n {
                s.push_str(&format!("    ├── it does {k}\n"));
            }
            s.push_str("    └── it ends");
            (s.into_bytes(), "many actions")
        }
        1 => {
            let l = *r.pick(&["// x\n", "\n", " \r\n", "// é\r\n"]);
            (format!("{}{}└── it x\n{}", r.pick(&["Foo\n", ""]), l.repeat(70_000), r.pick(&["", "!", "├"])).into_bytes(), "70000 lines")
        }
        9 => (soup(r, SOUP, 30_000), "many tokens"),
        _ => {
            let mut s = deep(r, 150);
            let t = s.clone();
            for k in 0..3 {
                s.push_str(&format!("\n\n{}", t.replace("Deep", &format!("Deep::f{k}"))));
            }
            (s.into_bytes(), "several deep trees")
        }
    };
    write(&d.join("big.tree"), &text)?;
    for args in [
        vec!["scaffold", "-w", "big.tree"],
        vec!["check", "big.tree"],
        vec!["check", "--fix", "big.tree"],
        vec!["scaffold", "big.tree", "big.tree", "none.tree", "."],
        vec!["check", "big.tree", "none.tree", "."],
        vec!["scaffold"],
        vec!["check"],
        vec!["check", "--fix"],
        vec!["scaffold", "-w", "-f", ""],
        vec!["check", "", "/", ".."],
        vec!["scaffold", "/", "..", "-S", "-m", "-s", "x"],
    ] {
        if what.len() % 2 == 0 && args.len() > 3 && r.pct(40) {
            continue;
        }
        let o = w.run(&d, args.iter().map(|s| s.to_string()))?;
        // An empty file name is a usage error.
        if o.code == Some(2) && args.contains(&"") && o.err().contains("--help") {
            continue;
        }
        verdict(&o, 1).map_err(|f| {
            f.file("spec.tree", &text[..text.len().min(200_000)])
                .file("stderr.txt", &o.stderr[..o.stderr.len().min(20_000)])
                .cmd(&format!("bulloak {} ({what})", args.join(" ")))
        })?;
    }
    w.stat(what);
    w.eval(&format!("{what}{i}"), true);
    w.drop_dir(&d);
    Ok(())
}

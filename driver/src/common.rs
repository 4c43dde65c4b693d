//! Helpers shared by the checks.
use crate::engine::*;
use crate::model::{self, Flags, Mem, Scaf};
use crate::rng::Rng;
use crate::run::{self, FileErr};
use crate::sol;
use crate::spec::{self, Gen, Layout, Spec};
use std::fs;
use std::path::{Path, PathBuf};

/// A spec and the text it was rendered to.
#[derive(Clone)]
pub struct Case {
    pub spec: Spec,
    pub text: String,
}

pub fn gen_case(r: &mut Rng) -> Case {
    let g = Gen::random(r);
    let mut spec = spec::gen_spec(r, &g);
    let lay = Layout::random(r);
    let text = spec::render(&mut spec, &lay, r);
    Case { spec, text }
}

pub fn case_of(mut spec: Spec, lay: &Layout, r: &mut Rng) -> Case {
    let text = spec::render(&mut spec, lay, r);
    Case { spec, text }
}

/// What `scaffold -w` did with one spec.
pub struct Got {
    pub sol: Option<String>,
    pub err: Option<FileErr>,
    pub crash: Option<String>,
}

pub fn flag_args(f: &Flags) -> Vec<String> {
    let mut a = vec![];
    if f.vm_skip {
        a.push("-S".to_string());
    }
    if f.skip_mods {
        a.push("-m".to_string());
    }
    if let Some(v) = &f.version {
        a.push("-s".to_string());
        a.push(v.clone());
    }
    a
}

/// Scaffolds several specs with one invocation (with `-w`), and singly when
/// that invocation crashes.
pub fn scaffold_batch(w: &mut W, texts: &[&str], flags: &[String]) -> Res<Vec<Got>> {
    let d = w.fresh()?;
    let names: Vec<String> = (0..texts.len()).map(|i| format!("s{i}.tree")).collect();
    for (n, t) in names.iter().zip(texts) {
        write(&d.join(n), t)?;
    }
    let base = |extra: &[String]| {
        let mut a = vec!["scaffold".to_string(), "-w".to_string()];
        a.extend_from_slice(flags);
        a.extend_from_slice(extra);
        a
    };
    let out = w.run(&d, base(&names))?;
    let mut got = vec![];
    if out.crash().is_some() {
        let mut any = false;
        for (n, _) in names.iter().zip(texts) {
            let _ = fs::remove_file(d.join(n.replace(".tree", ".t.sol")));
            let o = w.run(&d, base(&[n.clone()]))?;
            let e = run::parse_scaffold_err(&o.err());
            any |= o.crash().is_some();
            got.push(Got {
                sol: fs::read_to_string(d.join(n.replace(".tree", ".t.sol"))).ok(),
                err: e.files.into_iter().next(),
                crash: o.crash(),
            });
        }
        if !any {
            w.drop_dir(&d);
            return bad(format!("a batch of specs that work alone: {}", out.crash().unwrap()));
        }
    } else {
        let e = run::parse_scaffold_err(&out.err());
        for n in &names {
            got.push(Got {
                sol: fs::read_to_string(d.join(n.replace(".tree", ".t.sol"))).ok(),
                err: e.files.iter().find(|f| &f.file == n).cloned(),
                crash: None,
            });
        }
    }
    w.drop_dir(&d);
    Ok(got)
}

/// The code of an accepted spec, or a violation.
pub fn accepted(g: &Got) -> Res<&str> {
    if let Some(c) = &g.crash {
        return bad(format!("scaffolding a well-formed spec {c}"));
    }
    if let Some(e) = &g.err {
        let k: Vec<&str> = e.diags.iter().map(|d| d.kind.as_str()).collect();
        return bad(format!("a well-formed spec was rejected: {}", k.join("; ")));
    }
    match &g.sol {
        Some(s) => Ok(s),
        None => bad("no code was written for a well-formed spec"),
    }
}

pub fn parsed(sol: &str) -> Res<Scaf> {
    match sol::parse_scaffold(sol) {
        Ok(s) => Ok(s),
        Err(e) => bad(format!("the scaffolded file is not what was promised: {e}")),
    }
}

pub fn with_case<T>(r: Res<T>, c: &Case, sol: Option<&str>, cmd: &str) -> Res<T> {
    r.map_err(|f| {
        let f = f.file("spec.tree", c.text.as_bytes()).cmd(cmd);
        match sol {
            Some(s) => f.file("spec.t.sol", s.as_bytes()),
            None => f,
        }
    })
}

pub fn brief(m: &Mem) -> String {
    match m {
        Mem::Mod { name, .. } => format!("modifier {name}"),
        Mem::Fun(f) => format!("function {}", f.name),
    }
}

/// First difference of two lists.
pub fn diff<T: PartialEq + std::fmt::Debug>(what: &str, want: &[T], got: &[T]) -> Res<()> {
    for i in 0..want.len().max(got.len()) {
        if want.get(i) != got.get(i) {
            let f = |x: Option<&T>| x.map(|x| format!("{x:?}")).unwrap_or("nothing".into());
            return bad(format!(
                "{what}: expected {} at position {i}, got {} ({} expected, {} found)",
                f(want.get(i)),
                f(got.get(i)),
                want.len(),
                got.len()
            ));
        }
    }
    Ok(())
}

pub fn funs(s: &Scaf) -> Vec<&model::Fun> {
    s.members
        .iter()
        .filter_map(|m| match m {
            Mem::Fun(f) => Some(f),
            _ => None,
        })
        .collect()
}

pub fn versions(r: &mut Rng) -> String {
    (*r.pick(&[
        "0.8.19", "0.8.30", "^0.8.0", ">=0.8.0 <0.9.0", "0.8.19 || 0.8.20", "~0.8.4", "0.7.6", "*", "0.8", ">=0.5.0",
        "=0.8.13", "1.2.3", "0.8.0", "<0.9.0",
    ]))
    .to_string()
}

pub fn random_flags(r: &mut Rng) -> Flags {
    Flags {
        vm_skip: r.pct(35),
        skip_mods: r.pct(35),
        version: if r.pct(30) { Some(versions(r)) } else { None },
    }
}

pub fn sol_of(p: &Path) -> PathBuf {
    p.with_extension("t.sol")
}

pub fn strip_line(m: &Scaf) -> Scaf {
    let mut m = m.clone();
    for x in &mut m.members {
        match x {
            Mem::Mod { line, .. } => *line = 0,
            Mem::Fun(f) => f.line = 0,
        }
    }
    m
}

pub fn describe(c: &Case) -> String {
    c.text.chars().take(700).collect()
}

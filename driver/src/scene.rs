//! Directories with specs and Solidity files in all kinds of states.
use crate::c_check::{self, Base};
use crate::c_reject;
use crate::common::*;
use crate::engine::*;
use crate::model::Flags;
use crate::rng::Rng;
use crate::sgen::{self, Marks, Style};
use std::fs;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum What {
    Missing,
    Dir,
    File(Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct Item {
    /// Path of the spec, relative to the scene.
    pub tree: String,
    pub spec: What,
    /// Whether the spec is well-formed.
    pub good: bool,
    pub sol: What,
    pub sol_kind: &'static str,
    pub spec_kind: &'static str,
}

impl Item {
    pub fn sol_path(&self) -> String {
        Path::new(&self.tree).with_extension("t.sol").to_string_lossy().into_owned()
    }
}

pub struct Mix {
    /// Percentages of specs that are not well-formed, or not there.
    pub rejected: usize,
    pub broken: usize,
    pub sol_none: usize,
    pub sol_bad: usize,
}

fn garbage(r: &mut Rng) -> Vec<u8> {
    r.pick(&[
        "contract Foo {",
        "function (",
        "}",
        "contract Foo { function test_A( external {} }",
        "not solidity at all",
        "contract { }",
        "pragma solidity 0.8.0; contract A { function f() external { string memory s = \"abc; } }",
        "/* open",
    ])
    .as_bytes()
    .to_vec()
}

pub fn items(w: &mut W, r: &mut Rng, names: &[String], mix: &Mix, flags: &Flags) -> Res<Vec<Item>> {
    let bs: Vec<Base> = c_check::bases(w, r, names.len(), flags)?;
    let mut out: Vec<Item> = vec![];
    for (b, n) in bs.iter().zip(names) {
        let mut m = Marks(0);
        let ns = c_check::names_of(b);
        let mut it = Item {
            tree: n.clone(),
            spec: What::File(b.c.text.clone().into_bytes()),
            good: true,
            sol: What::Missing,
            sol_kind: "none",
            spec_kind: "accepted",
        };
        if !r.pct(mix.sol_none) {
            let k = if r.pct(mix.sol_bad) { 4 + r.below(5) } else { r.below(4) };
            let (what, kind) = match k {
                0 => (What::File(b.text.clone().into_bytes()), "scaffolded"),
                1 => {
                    let mut f = b.file.clone();
                    c_check::embellish(&mut f, r, &mut m, &ns, true);
                    (What::File(sgen::render(&f, &Style::random(r)).0.into_bytes()), "edited")
                }
                2 | 3 => {
                    let mut f = b.file.clone();
                    if r.pct(60) {
                        c_check::embellish(&mut f, r, &mut m, &ns, true);
                    }
                    c_check::damage(&mut f, r, &mut m, &ns);
                    (What::File(sgen::render(&f, &Style::random(r)).0.into_bytes()), "damaged")
                }
                4 | 5 => (What::File(garbage(r)), "not Solidity"),
                6 => (What::File(vec![0x2f, 0x2f, 0xff, 0xfe, 0x0a]), "not UTF-8"),
                7 => (What::Dir, "a directory"),
                _ => (What::File(vec![]), "empty"),
            };
            it.sol = what;
            it.sol_kind = kind;
        }
        if r.pct(mix.rejected) {
            if let Some(d) = c_reject::defect(r) {
                it.spec = What::File(d.text.into_bytes());
                it.good = false;
                it.spec_kind = "rejected";
            }
        } else if r.pct(mix.broken) {
            it.good = false;
            match r.below(4) {
                0 => {
                    it.spec = What::Dir;
                    it.spec_kind = "a directory";
                }
                1 => {
                    it.spec = What::File(b"Foo\n\xe2\x94\x94\xe2\x94\x80\xe2\x94\x80 it \xff\xfe\n".to_vec());
                    it.spec_kind = "not UTF-8";
                }
                _ => {
                    it.spec = What::Missing;
                    it.spec_kind = "missing";
                }
            }
        } else if !out.is_empty() && r.pct(15) {
            // The spec of another file once more.
            let o = r.pick(&out).clone();
            if o.good {
                it.spec = o.spec;
                if r.pct(50) {
                    it.sol = o.sol;
                    it.sol_kind = o.sol_kind;
                }
            }
        }
        out.push(it);
    }
    Ok(out)
}

fn put(p: &Path, w: &What) -> Res<()> {
    if let Some(d) = p.parent() {
        fs::create_dir_all(d).map_err(|e| Fail::Harness(format!("mkdir {}: {e}", d.display())))?;
    }
    match w {
        What::Missing => Ok(()),
        What::Dir => fs::create_dir_all(p).map_err(|e| Fail::Harness(format!("mkdir {}: {e}", p.display()))),
        What::File(b) => write(p, b),
    }
}

pub fn lay_out(dir: &Path, items: &[Item]) -> Res<()> {
    for i in items {
        put(&dir.join(&i.tree), &i.spec)?;
        put(&dir.join(i.sol_path()), &i.sol)?;
    }
    Ok(())
}

/// Gives some files another time of modification and other permissions.
pub fn age(dir: &Path, items: &[Item], r: &mut Rng) {
    use std::os::unix::fs::PermissionsExt;
    use std::time::{Duration, SystemTime};
    for i in items {
        for p in [dir.join(&i.tree), dir.join(i.sol_path())] {
            let Ok(f) = fs::File::open(&p) else { continue };
            if !f.metadata().is_ok_and(|m| m.is_file()) {
                continue;
            }
            if r.pct(60) {
                let unit = *r.pick(&[1, 60, 3600, 86_400, 31_536_000]);
                let by = Duration::from_secs((r.range(1, 40) * unit) as u64);
                let now = SystemTime::now();
                let _ = f.set_modified(if r.pct(75) { now - by } else { now + by });
            }
            if r.pct(20) {
                let mode = *r.pick(&[0o600, 0o755, 0o444, 0o666]);
                let _ = f.set_permissions(fs::Permissions::from_mode(mode));
            }
        }
    }
}

/// Attaches the scene to a violation.
pub fn show(f: Fail, items: &[Item], cmd: &str) -> Fail {
    let mut f = f.cmd(cmd);
    for i in items {
        if let What::File(b) = &i.spec {
            f = f.file(&i.tree, b);
        }
        if let What::File(b) = &i.sol {
            f = f.file(&i.sol_path(), b);
        }
    }
    f
}

pub fn describe(items: &[Item], cmd: &str) -> String {
    let mut o = format!("{cmd}\n");
    for i in items {
        o.push_str(&format!("{}: {}; {}: {}\n", i.tree, i.spec_kind, i.sol_path(), i.sol_kind));
    }
    o
}

/// Removes `.` and `..` from a path.
pub fn tidy(p: &str) -> PathBuf {
    let mut o = PathBuf::new();
    for c in Path::new(p).components() {
        match c {
            std::path::Component::CurDir => {}
            std::path::Component::ParentDir => {
                o.pop();
            }
            c => o.push(c),
        }
    }
    o
}

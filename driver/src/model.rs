//! Independent reference model: what the documented rules say a spec means.
use crate::spec::*;
use std::collections::HashSet;

pub fn upper_first(s: &str) -> String {
    let mut it = s.chars();
    match it.next() {
        None => String::new(),
        Some(c) => c.to_uppercase().chain(it).collect(),
    }
}

pub fn lower_first(s: &str) -> String {
    let mut it = s.chars();
    match it.next() {
        None => String::new(),
        Some(c) => c.to_lowercase().chain(it).collect(),
    }
}

/// Characters that may appear in an identifier. The generators use only
/// non-ASCII characters for which being alphabetic decides it.
fn ident_char(c: char) -> bool {
    c == '_' || if c.is_ascii() { c.is_ascii_alphanumeric() } else { c.is_alphabetic() }
}

pub fn sanitize(s: &str) -> String {
    s.chars()
        .map(|c| if c == '-' { '_' } else { c })
        .filter(|&c| ident_char(c))
        .collect()
}

fn pascal<'a>(ws: impl Iterator<Item = &'a str>) -> String {
    // Sanitised words that vanish leave nothing behind.
    ws.map(|w| upper_first(&sanitize(w))).collect()
}

/// `test_` + capitalised words, the tree's prefix in between.
pub fn top_test_name(a: &Act, prefix: &str) -> String {
    // Words are capitalised as written, the result is then sanitised.
    let body: String = a.words.iter().map(|w| upper_first(w)).collect();
    format!("test_{prefix}{}", sanitize(&body))
}

pub fn is_revert(a: &Act) -> bool {
    let mut title = a.kw.clone();
    for w in &a.words {
        title.push(' ');
        title.push_str(w);
    }
    let t: String = title
        .to_lowercase()
        .chars()
        .map(|c| if c == '-' { '_' } else { c })
        .filter(|&c| c == ' ' || ident_char(c))
        .collect();
    t == "it should revert"
}

/// The name of the test of a condition, if it has one.
pub fn cond_test_name(c: &Cond, prefix: &str) -> Option<String> {
    let first = c.kids.iter().find_map(|k| match k {
        Node::Act(a) => Some(a),
        _ => None,
    })?;
    let rest = pascal(c.words.iter().map(|s| s.as_str()));
    let kw = upper_first(&c.kw);
    Some(if is_revert(first) {
        format!("test_{prefix}Revert{kw}_{rest}")
    } else {
        format!("test_{prefix}{kw}{rest}")
    })
}

pub fn modifier_name(c: &Cond) -> String {
    let mut s = upper_first(&c.kw);
    s.push_str(&pascal(c.words.iter().map(|s| s.as_str())));
    lower_first(&s)
}

/// What must be unique among the conditions and root actions of a tree.
pub fn cond_key(c: &Cond) -> String {
    modifier_name(c)
}
pub fn act_key(a: &Act) -> String {
    let mut s = upper_first(&sanitize(&a.kw));
    s.push_str(&pascal(a.words.iter().map(|s| s.as_str())));
    lower_first(&s)
}

pub fn has_modifier(c: &Cond) -> bool {
    c.kids.iter().any(|k| matches!(k, Node::Cond(_)))
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Fun {
    pub name: String,
    pub mods: Vec<String>,
    pub comments: Vec<String>,
    pub skip: bool,
    /// Line of the branch in the spec (model only).
    pub line: usize,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Mem {
    Mod { name: String, line: usize },
    Fun(Fun),
}

impl Mem {
    pub fn name(&self) -> &str {
        match self {
            Mem::Mod { name, .. } => name,
            Mem::Fun(f) => &f.name,
        }
    }
    pub fn line(&self) -> usize {
        match self {
            Mem::Mod { line, .. } => *line,
            Mem::Fun(f) => f.line,
        }
    }
    pub fn is_mod(&self) -> bool {
        matches!(self, Mem::Mod { .. })
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Scaf {
    pub pragma: String,
    pub import: bool,
    pub contract: String,
    pub is_test: bool,
    pub members: Vec<Mem>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Flags {
    pub vm_skip: bool,
    pub skip_mods: bool,
    pub version: Option<String>,
}

impl Flags {
    pub fn none() -> Flags {
        Flags { vm_skip: false, skip_mods: false, version: None }
    }
}

fn comments(a: &Act) -> Vec<String> {
    let mut title = a.kw.clone();
    for w in &a.words {
        title.push(' ');
        title.push_str(w);
    }
    let mut out = vec![title];
    for d in &a.descs {
        out.push(format!("{}{}", " ".repeat(d.delta), d.words.join(" ")));
    }
    out
}

fn cond_members(
    c: &Cond,
    prefix: &str,
    stack: &mut Vec<String>,
    seen_mods: &mut HashSet<String>,
    out: &mut Vec<Mem>,
) {
    let m = has_modifier(c);
    if m {
        let name = modifier_name(c);
        stack.push(name.clone());
        if seen_mods.insert(name.clone()) {
            out.push(Mem::Mod { name, line: c.loc.branch.line });
        }
    }
    if let Some(name) = cond_test_name(c, prefix) {
        let mut cs = vec![];
        for k in &c.kids {
            if let Node::Act(a) = k {
                cs.extend(comments(a));
            }
        }
        out.push(Mem::Fun(Fun {
            name,
            mods: stack.clone(),
            comments: cs,
            skip: false,
            line: c.loc.branch.line,
        }));
    }
    for k in &c.kids {
        if let Node::Cond(c) = k {
            cond_members(c, prefix, stack, seen_mods, out);
        }
    }
    if m {
        stack.pop();
    }
}

/// The members of the contract, in order, without flags applied.
pub fn members(s: &Spec) -> Vec<Mem> {
    let mut out = vec![];
    let mut seen = HashSet::new();
    let multi = s.trees.len() > 1;
    for t in &s.trees {
        let prefix = if multi {
            upper_first(&sanitize(t.func.as_deref().unwrap_or("")))
        } else {
            String::new()
        };
        for n in &t.items {
            match n {
                Node::Act(a) => out.push(Mem::Fun(Fun {
                    name: top_test_name(a, &prefix),
                    mods: vec![],
                    comments: comments(a),
                    skip: false,
                    line: a.loc.branch.line,
                })),
                Node::Cond(c) => cond_members(c, &prefix, &mut vec![], &mut seen, &mut out),
            }
        }
    }
    out
}

pub fn contract_name(s: &Spec) -> String {
    if s.trees.len() > 1 {
        sanitize(&s.trees[0].contract)
    } else {
        sanitize(&s.trees[0].root())
    }
}

/// The whole scaffolded file.
pub fn scaffold(s: &Spec, f: &Flags) -> Scaf {
    let mut ms = members(s);
    if f.skip_mods {
        ms.retain(|m| !m.is_mod());
    }
    if f.vm_skip {
        for m in &mut ms {
            if let Mem::Fun(f) = m {
                f.skip = true;
            }
        }
    }
    Scaf {
        pragma: f.version.clone().unwrap_or_else(|| "0.8.0".into()),
        import: f.vm_skip,
        contract: contract_name(s),
        is_test: f.vm_skip,
        members: ms,
    }
}

/// A shape signature, used to count distinct cases.
pub fn shape(nodes: &[Node], out: &mut String) {
    for n in nodes {
        match n {
            Node::Act(a) => {
                out.push('a');
                for d in &a.descs {
                    out.push((b'0' + (d.depth % 10) as u8) as char);
                }
            }
            Node::Cond(c) => {
                out.push('(');
                shape(&c.kids, out);
                out.push(')');
            }
        }
    }
}

pub fn spec_shape(s: &Spec) -> String {
    let mut o = String::new();
    for t in &s.trees {
        shape(&t.items, &mut o);
        o.push('|');
    }
    o
}

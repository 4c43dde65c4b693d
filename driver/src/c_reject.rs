//! C07 and C09: specs with one defect, how they are rejected and where the
//! diagnosis points.
use crate::common::*;
use crate::engine::*;
use crate::model;
use crate::rng::Rng;
use crate::run::{self, Diag};
use crate::spec::{self, *};
use std::collections::HashMap;

pub struct Defect {
    pub kind: &'static str,
    pub text: String,
    /// The expected message.
    pub want: String,
    /// Byte offset of the offending token or branch, when located.
    pub at: Option<usize>,
    /// Whether this must be the only diagnosis.
    pub only: bool,
    pub semantic: bool,
}

/// Line and column (in characters) of an offset.
pub fn place(text: &str, off: usize) -> (usize, usize) {
    let before = &text[..off];
    let line = before.matches('\n').count() + 1;
    let col = before.rsplit('\n').next().unwrap_or("").chars().count() + 1;
    (line, col)
}

fn conds_mut<'a>(nodes: &'a mut [Node], out: &mut Vec<&'a mut Cond>) {
    for n in nodes {
        if let Node::Cond(c) = n {
            // Split the borrow: children first, then the condition itself.
            let p: *mut Cond = c;
            out.push(unsafe { &mut *p });
            conds_mut(unsafe { &mut (*p).kids }, out);
        }
    }
}

/// Applies `f` to the k-th condition in preorder.
fn with_cond(nodes: &mut [Node], k: usize, f: &mut dyn FnMut(&mut Cond)) {
    let mut v = vec![];
    conds_mut(nodes, &mut v);
    if let Some(c) = v.into_iter().nth(k) {
        f(c);
    }
}

fn n_conds(nodes: &[Node]) -> usize {
    let mut n = 0;
    each_cond(nodes, &mut |_| n += 1);
    n
}

/// Every branch of a tree in text order: its location and its title.
enum Line<'a> {
    Cond(&'a Cond),
    Act(&'a Act),
    Desc(&'a Desc),
}
impl Line<'_> {
    fn loc(&self) -> Loc {
        match self {
            Line::Cond(c) => c.loc,
            Line::Act(a) => a.loc,
            Line::Desc(d) => d.loc,
        }
    }
}
fn lines<'a>(nodes: &'a [Node], out: &mut Vec<Line<'a>>) {
    for n in nodes {
        match n {
            Node::Cond(c) => {
                out.push(Line::Cond(c));
                lines(&c.kids, out);
            }
            Node::Act(a) => {
                out.push(Line::Act(a));
                for d in &a.descs {
                    out.push(Line::Desc(d));
                }
            }
        }
    }
}

fn end_of(text: &str, off: usize) -> usize {
    off + text[off..].chars().next().map(|c| c.len_utf8()).unwrap_or(0)
}

fn splice(text: &str, a: usize, b: usize, ins: &str) -> String {
    format!("{}{}{}", &text[..a], ins, &text[b..])
}

const BAD_CHARS: &[char] = &[
    '.', ',', '(', ')', '!', '[', ']', '{', '}', '?', ':', ';', '@', '#', '$', '%', '&', '*', '+', '=', '<', '>', '^',
    '~', '`', '\\', '→', '∞', '“', '…', '😀', '€', '|', '─', '│', '├', '└', '\u{300}', '\u{200b}',
];

const WORDS: &[&str] = &["foo", "whenever", "should", "Bar", "its", "itt", "gives", "if", "then", "→", "{", "and"];

/// A random spec with one random defect; None when the shape does not allow it.
pub fn defect(r: &mut Rng) -> Option<Defect> {
    let mut g = Gen::random(r);
    if r.pct(60) {
        g.budget = g.budget.min(15);
    }
    let which = r.below(21);
    if which >= 15 && which <= 17 {
        g.trees = r.range(2, 5);
    }
    let mut s = spec::gen_spec(r, &g);
    let lay = Layout::random(r);
    let nt = s.trees.len();
    let k = r.below(nt);
    let d = |kind, text, want: &str, at, only, semantic| {
        Some(Defect { kind, text, want: want.to_string(), at, only, semantic })
    };
    match which {
        // An invalid character in the title of a condition.
        0 => {
            let text = spec::render(&mut s, &lay, r);
            let mut cs: Vec<&Cond> = vec![];
            each_cond(&s.trees[k].items, &mut |c| cs.push(c));
            if cs.is_empty() {
                return None;
            }
            let c = *r.pick(&cs);
            let ch = *r.pick(BAD_CHARS);
            // In the last word: before or after its last character.
            let last = c.loc.last.off;
            let at = if r.pct(50) { last } else { end_of(&text, last) };
            // A box character that starts a word is not part of a word.
            if "├└─│".contains(ch) && at == last && c.words.last()?.chars().count() == 1 {
                return None;
            }
            if ch == '─' && at != last {
                // Still inside the word.
            }
            let t = splice(&text, at, at, &ch.to_string());
            d("invalid character", t, &format!("invalid identifier: {ch}"), Some(at), true, false)
        }
        // A branch without keyword.
        1 => {
            let text = spec::render(&mut s, &lay, r);
            let mut ls = vec![];
            lines(&s.trees[k].items, &mut ls);
            let ls: Vec<&Line> = ls.iter().filter(|l| !matches!(l, Line::Desc(_))).collect();
            let l = *r.pick(&ls);
            let (kw, loc) = match l {
                Line::Cond(c) => (&c.kw, c.loc),
                Line::Act(a) => (&a.kw, a.loc),
                Line::Desc(_) => return None,
            };
            let mut w = r.pick(WORDS).to_string();
            if r.pct(8) {
                w = w.repeat(r.range(10, 60));
            }
            let a = loc.word.off;
            let t = splice(&text, a, a + kw.len(), &w);
            d("no keyword", t, &format!("unexpected token '{w}'"), Some(a), true, false)
        }
        // A branch without anything.
        2 => {
            let text = spec::render(&mut s, &lay, r);
            let mut ls = vec![];
            lines(&s.trees[k].items, &mut ls);
            let i = r.below(ls.len());
            if matches!(ls[i], Line::Desc(_)) {
                return None;
            }
            let loc = ls[i].loc();
            let (a, b) = (loc.word.off, end_of(&text, loc.last.off));
            let t = splice(&text, a, b, "");
            match ls.get(i + 1) {
                Some(n) => {
                    let at = n.loc().branch.off - (b - a);
                    let ch = t[at..].chars().next()?;
                    d("empty branch", t, &format!("unexpected token '{ch}'"), Some(at), true, false)
                }
                None => d("empty last branch", t, "unexpected end of file", Some(loc.branch.off), true, false),
            }
        }
        // A condition without title.
        3 => {
            let text = spec::render(&mut s, &lay, r);
            let mut cs: Vec<&Cond> = vec![];
            each_cond(&s.trees[k].items, &mut |c| cs.push(c));
            if cs.is_empty() {
                return None;
            }
            let c = *r.pick(&cs);
            let a = c.loc.word.off + c.kw.len();
            let t = splice(&text, a, end_of(&text, c.loc.last.off), "");
            d("no title", t, "found a condition/action without a title", Some(c.loc.word.off), true, false)
        }
        // A condition without children.
        4 => {
            let n = n_conds(&s.trees[k].items);
            if n == 0 {
                return None;
            }
            let j = r.below(n);
            let long = if r.pct(10) { r.range(20, 60) } else { 0 };
            with_cond(&mut s.trees[k].items, j, &mut |c| {
                c.kids.clear();
                c.words.extend((0..long).map(|i| format!("word{i}")));
            });
            let text = spec::render(&mut s, &lay, r);
            let mut cs: Vec<&Cond> = vec![];
            each_cond(&s.trees[k].items, &mut |c| cs.push(c));
            let at = cs[j].loc.branch.off;
            d("no children", text, "found a condition with no children", Some(at), true, true)
        }
        // Two conditions, or root actions, of the same name.
        5 | 6 => {
            let act = r.pct(35);
            let copies = match r.below(20) {
                0 => r.range(3, 40),
                1..=4 => 2,
                _ => 1,
            };
            for _ in 0..copies {
                if act {
                    let acts: Vec<Act> = s.trees[k]
                        .items
                        .iter()
                        .filter_map(|n| match n {
                            Node::Act(a) => Some(a.clone()),
                            _ => None,
                        })
                        .collect();
                    if acts.is_empty() {
                        return None;
                    }
                    let mut a = acts[0].clone();
                    respell(&mut a.words, r);
                    let at = r.below(s.trees[k].items.len() + 1);
                    s.trees[k].items.insert(at, Node::Act(a));
                } else {
                    let mut cs: Vec<&Cond> = vec![];
                    each_cond(&s.trees[k].items, &mut |c| cs.push(c));
                    if cs.is_empty() {
                        return None;
                    }
                    let mut c = cs[0].clone();
                    c.kids.retain(|k| matches!(k, Node::Act(_)));
                    if c.kids.is_empty() {
                        c.kids.push(Node::Act(Act {
                            kw: "it".into(),
                            words: vec!["works".into()],
                            descs: vec![],
                            loc: Loc::default(),
                        }));
                    }
                    respell(&mut c.words, r);
                    // Anywhere: under the root or under another condition.
                    let n = cs.len();
                    let j = r.below(n + 1);
                    if j == n {
                        let at = r.below(s.trees[k].items.len() + 1);
                        s.trees[k].items.insert(at, Node::Cond(c));
                    } else {
                        let at = r.next() as usize;
                        with_cond(&mut s.trees[k].items, j, &mut |p| {
                            let at = at % (p.kids.len() + 1);
                            p.kids.insert(at, Node::Cond(c.clone()));
                        });
                    }
                }
            }
            let text = spec::render(&mut s, &lay, r);
            // Which names occur more than once?
            let mut seen: HashMap<String, Vec<Loc>> = HashMap::new();
            fn walk(ns: &[Node], top: bool, seen: &mut HashMap<String, Vec<Loc>>) {
                for n in ns {
                    match n {
                        Node::Cond(c) => {
                            seen.entry(model::cond_key(c)).or_default().push(c.loc);
                            walk(&c.kids, false, seen);
                        }
                        Node::Act(a) if top => seen.entry(model::act_key(a)).or_default().push(a.loc),
                        _ => {}
                    }
                }
            }
            walk(&s.trees[k].items, true, &mut seen);
            let mut dup: Vec<Vec<Loc>> = seen.into_values().filter(|v| v.len() > 1).collect();
            if dup.len() != 1 {
                return None;
            }
            let v = dup.pop()?;
            let ls: Vec<String> = v.iter().map(|l| l.branch.line.to_string()).collect();
            d(
                "duplicate",
                text,
                &format!("found an identifier more than once in lines: {}", ls.join(", ")),
                Some(v[0].branch.off),
                true,
                true,
            )
        }
        // The last root branch drawn as a tee, another one as a corner.
        7 | 8 => {
            let text = spec::render(&mut s, &lay, r);
            let items = &s.trees[k].items;
            let tee = which == 7;
            let i = if tee {
                items.len() - 1
            } else if items.len() > 1 {
                r.below(items.len() - 1)
            } else {
                return None;
            };
            let at = match &items[i] {
                Node::Cond(c) => c.loc.branch.off,
                Node::Act(a) => a.loc.branch.off,
            };
            let mut t = splice(&text, at, at + '├'.len_utf8(), if tee { "├" } else { "└" });
            let mut at = at;
            if !tee && i == 0 && !lay.tabs && r.pct(40) {
                // What comes after the corner starts further to the left.
                let to = match &items[1] {
                    Node::Cond(c) => c.loc.branch.off,
                    Node::Act(a) => a.loc.branch.off,
                };
                let a = t[..at].rfind('\n')? + 1;
                let b = t[..to].rfind('\n')? + 1;
                let pad = " ".repeat(r.range(1, 5));
                let moved: String = t[a..b].split_inclusive('\n').map(|l| format!("{pad}{l}")).collect();
                t = splice(&t, a, b, &moved);
                at += pad.len();
            }
            let want =
                if tee { "a `Tee` must not be the last child" } else { "a `Corner` must be the last child" };
            d(if tee { "tee last" } else { "corner not last" }, t, want, Some(at), true, false)
        }
        // No root.
        9 => {
            let text = spec::render(&mut s, &lay, r);
            let t = &s.trees[k];
            let a = t.loc.branch.off;
            let b = end_of(&text, t.loc.last.off);
            if r.pct(40) {
                let kw = *r.pick(&["when", "given", "it", "It", "When", "GIVEN"]);
                return d("keyword as root", splice(&text, a, b, kw), "missing a root", Some(a), true, false);
            }
            let mut ls = vec![];
            lines(&t.items, &mut ls);
            let at = ls[0].loc().branch.off - (b - a);
            let tx = splice(&text, a, b, "");
            // The blank line that is left may separate what is above it.
            d("no root", tx, "missing a root", Some(at), false, false)
        }
        // Something after the root's name.
        10 => {
            let text = spec::render(&mut s, &lay, r);
            let e = end_of(&text, s.trees[k].loc.last.off);
            let w = *r.pick(&["bar", "when", "it", "given", "When", "x::y", "IT", "{", "is"]);
            let gap = " ".repeat(r.range(1, 3));
            let t = splice(&text, e, e, &format!("{gap}{w}"));
            let want = match w.to_lowercase().as_str() {
                "when" => "unexpected `when` keyword".to_string(),
                "given" => "unexpected `given` keyword".to_string(),
                "it" => "unexpected `it` keyword".to_string(),
                _ => format!("unexpected `word` '{w}'"),
            };
            d("text after the root", t, &want, Some(e + gap.len()), true, false)
        }
        // A keyword where a description is expected.
        11 => {
            let text = spec::render(&mut s, &lay, r);
            let mut ls = vec![];
            lines(&s.trees[k].items, &mut ls);
            let ds: Vec<Loc> = ls.iter().filter(|l| matches!(l, Line::Desc(_))).map(|l| l.loc()).collect();
            if ds.is_empty() {
                return None;
            }
            let loc = *r.pick(&ds);
            let at = loc.word.off;
            // After `when` and `given`, an invalid character comes first.
            let plain = text[at..end_of(&text, loc.last.off)]
                .chars()
                .all(|c| c.is_ascii_alphanumeric() || c == '_' || c.is_whitespace());
            let w = *r.pick(if plain { &["when", "given", "it", "When", "It"][..] } else { &["it", "It"][..] });
            let t = splice(&text, at, at, &format!("{w} "));
            d("keyword as description", t, &format!("unexpected token in description '{w}'"), Some(at), true, false)
        }
        // A root without branches.
        12 => {
            s.trees[k].items.clear();
            let text = spec::render(&mut s, &lay, r);
            d("no rules", text, "no rules where defined", Some(s.trees[k].loc.last.off), true, true)
        }
        // Nothing at all.
        13 => {
            let mut t = String::new();
            for _ in 0..r.below(5) {
                t.push_str(r.pick(&["\n", "// a comment\n", "  \n", "\t", "\r\n", "//", "// é\r\n", " ", "│\n", "──\n"]));
            }
            d("empty tree", t, "found an empty tree", None, true, false)
        }
        // A blank line inside a tree.
        14 => {
            let text = spec::render(&mut s, &lay, r);
            let mut ls = vec![];
            lines(&s.trees[k].items, &mut ls);
            let i = r.below(ls.len());
            // Before a branch: at the start of its line.
            let b = ls[i].loc().branch.off;
            let start = text[..b].rfind('\n')? + 1;
            let nl = if lay.crlf > 0 { "\r\n" } else { "\n" };
            let t = splice(&text, start, start, nl);
            let at = b + nl.len();
            // Only what is above may yield another diagnosis first.
            if i > 0 {
                return d("blank line", t, "", None, false, false);
            }
            // The root alone comes first.
            d("blank line after the root", t, "no rules where defined", Some(s.trees[k].loc.last.off), false, true)
                .map(|x| if at == 0 { x } else { x })
        }
        // Inconsistent roots.
        15 => {
            let miss = r.below(nt);
            s.trees[miss].func = None;
            let text = spec::render(&mut s, &lay, r);
            d("no separator", text, &format!("separator missing at tree root #{}", miss + 1), None, true, false)
        }
        16 => {
            for t in &mut s.trees {
                if r.pct(50) {
                    t.contract = String::new();
                }
            }
            let first = s.trees.iter().position(|t| t.contract.is_empty());
            let Some(first) = first else {
                let j = 1 + r.below(nt - 1);
                let good = s.trees[0].contract.clone();
                s.trees[j].contract = other_name(r, &good);
                let badn = s.trees[j].contract.clone();
                let text = spec::render(&mut s, &lay, r);
                return d(
                    "contract mismatch",
                    text,
                    &format!("contract name mismatch: expected '{good}', found '{badn}'"),
                    None,
                    true,
                    false,
                );
            };
            let _ = first;
            let text = spec::render(&mut s, &lay, r);
            d("no contract name", text, "contract name missing at tree root #", None, true, false)
        }
        17 => {
            // The same test in two trees.
            let from = r.below(nt - 1);
            let to = from + 1 + r.below(nt - 1 - from);
            s.trees[to].func = s.trees[from].func.clone();
            let item = s.trees[from].items[r.below(s.trees[from].items.len())].clone();
            s.trees[to].items = vec![item];
            let text = spec::render(&mut s, &lay, r);
            same_test(&s, text)
        }
        // The first branch of a tree without its branch character.
        18 => {
            let text = spec::render(&mut s, &lay, r);
            let mut ls = vec![];
            lines(&s.trees[k].items, &mut ls);
            let (kw, loc) = match ls[0] {
                Line::Cond(c) => (c.kw.to_lowercase(), c.loc),
                Line::Act(a) => (a.kw.to_lowercase(), a.loc),
                Line::Desc(_) => return None,
            };
            let (a, b) = (loc.branch.off, loc.branch.off + '├'.len_utf8());
            let ins = *r.pick(&["", " ", "─"]);
            let t = splice(&text, a, b, ins);
            let at = loc.word.off - '├'.len_utf8() + ins.len();
            d("no branch character", t, &format!("unexpected `{kw}` keyword"), Some(at), true, false)
        }
        // A description without anything.
        19 => {
            if g.descs < 40 || r.pct(50) {
                // The last action gets some, too.
                let mut ns = &mut s.trees[k].items;
                loop {
                    match ns.last_mut() {
                        Some(Node::Cond(c)) => ns = &mut c.kids,
                        Some(Node::Act(a)) => {
                            let mut depth = 1;
                            for _ in 0..r.range(1, 3) {
                                let words = (0..r.range(1, 4)).map(|_| r.pick(WORDS).to_string()).collect();
                                a.descs.push(Desc { delta: 0, depth, words, loc: Loc::default() });
                                depth = r.range(1, depth + 1);
                            }
                            break;
                        }
                        None => return None,
                    }
                }
            }
            let text = spec::render(&mut s, &lay, r);
            let mut ls = vec![];
            lines(&s.trees[k].items, &mut ls);
            let is: Vec<usize> = (0..ls.len()).filter(|&i| matches!(ls[i], Line::Desc(_))).collect();
            let i = if r.pct(50) { *is.last()? } else { *is.get(r.below(is.len().max(1)))? };
            let loc = ls[i].loc();
            let (a, b) = (loc.word.off, end_of(&text, loc.last.off));
            let t = splice(&text, a, b, "");
            match ls.get(i + 1) {
                Some(n) => {
                    let at = n.loc().branch.off - (b - a);
                    let ch = t[at..].chars().next()?;
                    let want = format!("unexpected token in description '{ch}'");
                    d("empty description", t, &want, Some(at), true, false)
                }
                None => d("empty last description", t, "unexpected end of file", Some(loc.branch.off), true, false),
            }
        }
        // The same test within a tree, under two different keys.
        _ => {
            let prefix = if nt > 1 {
                model::upper_first(&model::sanitize(s.trees[k].func.as_deref().unwrap_or("")))
            } else {
                String::new()
            };
            let mut cs: Vec<&Cond> = vec![];
            each_cond(&s.trees[k].items, &mut |c| {
                if model::cond_test_name(c, &prefix).is_some() {
                    cs.push(c)
                }
            });
            if cs.is_empty() {
                return None;
            }
            let c = *r.pick(&cs);
            let name = model::cond_test_name(c, &prefix)?;
            let word = name.strip_prefix(&format!("test_{prefix}"))?.to_string();
            let a = Act { kw: "it".into(), words: vec![word], descs: vec![], loc: Loc::default() };
            let at = r.below(s.trees[k].items.len() + 1);
            s.trees[k].items.insert(at, Node::Act(a));
            let text = spec::render(&mut s, &lay, r);
            same_test(&s, text)
        }
    }
}

/// A name that differs from `name`, a little or in its letter case only.
pub fn other_name(r: &mut Rng, name: &str) -> String {
    let flip = |c: char| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
    let n = name.chars().count();
    let at = r.below(n);
    let other: String = match r.below(6) {
        0 => name.chars().map(flip).collect(),
        1 => name.chars().enumerate().map(|(i, c)| if i == at { flip(c) } else { c }).collect(),
        2 => name.chars().take(n - 1).collect(),
        3 => format!("_{name}"),
        _ => format!("{name}{}", r.pick(&["X", "1", "Test", "_"])),
    };
    if other == name || other.is_empty() {
        format!("{name}X")
    } else {
        other
    }
}

fn same_test(s: &Spec, text: String) -> Option<Defect> {
    let ms = model::members(s);
    let mut seen: HashMap<&str, usize> = HashMap::new();
    for m in ms.iter().filter(|m| !m.is_mod()) {
        if let Some(&first) = seen.get(m.name()) {
            let at = off_of_line(s, m.line())?;
            return Some(Defect {
                kind: "same test twice",
                text,
                want: format!("found more than one test named '{}' in lines: {first}, {}", m.name(), m.line()),
                at: Some(at),
                only: true,
                semantic: false,
            });
        }
        seen.insert(m.name(), m.line());
    }
    None
}

fn off_of_line(s: &Spec, line: usize) -> Option<usize> {
    for t in &s.trees {
        let mut ls = vec![];
        lines(&t.items, &mut ls);
        for l in ls {
            if l.loc().branch.line == line {
                return Some(l.loc().branch.off);
            }
        }
    }
    None
}

/// Another spelling of the same name.
fn respell(ws: &mut [String], r: &mut Rng) {
    for w in ws.iter_mut() {
        if r.pct(40) {
            let c = w.chars().next().unwrap_or('x');
            if c.is_ascii_lowercase() && !is_kw(w) {
                *w = model::upper_first(w);
            } else if w.contains('_') && r.pct(50) {
                *w = w.replace('_', "-");
            }
        }
    }
}

const BATCH: usize = 24;

fn batch(r: &mut Rng) -> Vec<Defect> {
    let mut v = vec![];
    while v.len() < BATCH {
        if let Some(d) = defect(r) {
            v.push(d);
        }
    }
    v
}

fn kinds(ds: &[Diag]) -> Vec<String> {
    ds.iter().map(|d| d.kind.clone()).collect()
}

fn matches(d: &Defect, k: &str) -> bool {
    if d.want.ends_with('#') || d.kind == "no separator" {
        k.starts_with(&d.want)
    } else {
        k == d.want
    }
}

/// `n` specs: their paths below the working directory, and how the command
/// names them.
fn paths(w: &mut W, d: &std::path::Path, prefix: &str, n: usize, r: &mut Rng) -> Res<Vec<(String, String)>> {
    let mut out = vec![];
    let plain = r.pct(30);
    for i in 0..n {
        let (file, arg) = match if plain { 0 } else { r.below(8) } {
            0 | 1 => (format!("{prefix}{i}.tree"), None),
            // The same name in several directories.
            2 | 3 => (format!("{prefix}{i}/{}.tree", r.pick(&["a", "Foo", "s0"])), None),
            4 => (format!("{prefix}dir with é/sub/{i}.tree"), None),
            5 => {
                let f = format!("{prefix}{i}.tree");
                (f.clone(), Some(format!("./{f}")))
            }
            6 => {
                let f = format!("{prefix}{i}.v2.tree");
                (f.clone(), Some(d.join(f).display().to_string()))
            }
            _ => {
                let f = format!("{prefix}x/{i}.tree");
                (f.clone(), Some(format!("{prefix}x/../{f}")))
            }
        };
        if let Some(p) = d.join(&file).parent() {
            std::fs::create_dir_all(p).map_err(|e| Fail::Harness(format!("mkdir: {e}")))?;
        }
        if arg.is_some() || file.contains('/') {
            w.stat("named by a path");
        }
        out.push((file.clone(), arg.unwrap_or(file)));
    }
    Ok(out)
}

fn with_defect<T>(res: Res<T>, d: &Defect, cmd: &str) -> Res<T> {
    res.map_err(|f| {
        f.file("spec.tree", d.text.as_bytes())
            .file("EXPECTED.txt", format!("{}: {} at {:?}", d.kind, d.want, d.at.map(|a| place(&d.text, a))).as_bytes())
            .cmd(cmd)
    })
}

pub fn c07(w: &mut W, r: &mut Rng, _: u64) -> Res<()> {
    let ds = batch(r);
    let d = w.fresh()?;
    let paths = paths(w, &d, "s", ds.len(), r)?;
    let names: Vec<String> = paths.iter().map(|p| p.1.clone()).collect();
    for (p, x) in paths.iter().zip(&ds) {
        write(&d.join(&p.0), &x.text)?;
    }
    let before = run::snapshot(&d);
    let mut a = vec!["scaffold".to_string()];
    let writes = r.pct(70);
    if writes {
        a.push("-w".into());
        if r.pct(50) {
            a.push("-f".into());
        }
    }
    a.extend(flag_args(&random_flags(r)));
    a.extend(names.iter().cloned());
    let o = w.run(&d, &a)?;
    let cmd = format!("bulloak {}", a.join(" "));
    let e = run::parse_scaffold_err(&o.err());
    let after = run::snapshot(&d);
    let crash = o.crash();
    for ((file, n), x) in paths.iter().zip(&ds) {
        let res = (|| {
            if let Some(c) = &crash {
                return bad(format!("among others, a spec with {}: scaffold {c}", x.kind));
            }
            let sol = std::path::PathBuf::from(file.replace(".tree", ".t.sol"));
            if after.contains_key(&sol) && !before.contains_key(&sol) {
                return bad(format!("a spec with this defect was accepted and written: {}", x.kind));
            }
            let Some(f) = e.files.iter().find(|f| &f.file == n) else {
                return bad(format!("nothing is reported for a spec with this defect: {}", x.kind));
            };
            let ks = kinds(&f.diags);
            let ok = if x.want.is_empty() { !ks.is_empty() } else { ks.iter().any(|k| matches(x, k)) };
            if !ok || (x.only && ks.len() != 1) {
                return bad(format!("{}: expected the diagnosis {:?}, got {:?}", x.kind, x.want, ks));
            }
            Ok(())
        })();
        with_defect(res, x, &cmd)?;
        w.stat(&format!("rejected by scaffold: {}", x.kind));
        w.eval(&x.text, true);
    }
    if o.code != Some(1) {
        return with_defect(bad(format!("scaffold exits with {:?} after rejecting specs", o.code)), &ds[0], &cmd);
    }
    if !o.stdout.is_empty() {
        return with_defect(bad(format!("scaffold prints for rejected specs: {}", o.out())), &ds[0], &cmd);
    }
    // The same specs under check.
    for (n, _) in &paths {
        write(&sol_of(&d.join(n)), "contract Foo {}\n")?;
    }
    let mut a = vec!["check".to_string()];
    if r.pct(30) {
        a.push("-m".into());
    }
    let fix = r.pct(25);
    if fix {
        a.push("--fix".into());
    }
    a.extend(names.iter().cloned());
    let before = run::snapshot(&d);
    let c = w.run(&d, &a)?;
    let cmd = format!("bulloak {}", a.join(" "));
    let ce = run::parse_check_err(&c.err());
    for (n, x) in names.iter().zip(&ds) {
        let res = (|| {
            if let Some(c) = c.crash() {
                return bad(format!("among others, a spec with {}: check {c}", x.kind));
            }
            let vs: Vec<&run::Viol> =
                ce.viols.iter().filter(|v| v.at == *n || v.at.starts_with(&format!("{n}:"))).collect();
            if vs.is_empty() {
                return bad(format!("check reports nothing for a spec with this defect: {}", x.kind));
            }
            let ks = e.files.iter().find(|f| &f.file == n).map(|f| kinds(&f.diags)).unwrap_or_default();
            for v in &vs {
                let m = &v.msg;
                let ok = match m.strip_prefix("an error occurred while parsing the tree: ") {
                    Some(k) => ks.iter().any(|x| x == k),
                    None => m == "at least one semantic error occurred while parsing the tree" && (x.semantic || x.want.is_empty() || !x.only),
                };
                if !ok {
                    return bad(format!("{}: scaffold says {:?}, check says {:?}", x.kind, ks, m));
                }
            }
            Ok(())
        })();
        with_defect(res, x, &cmd)?;
        w.stat("rejected by check");
    }
    if c.code != Some(1) {
        return with_defect(bad(format!("check exits with {:?} on rejected specs", c.code)), &ds[0], &cmd);
    }
    if run::snapshot(&d) != before {
        return with_defect(bad("check writes a file for a rejected spec"), &ds[0], &cmd);
    }
    w.sample(|| ds[0].text.chars().take(500).collect());
    w.drop_dir(&d);
    c07_many(w, r)
}

/// Several broken rules in one tree: each break is named.
fn c07_many(w: &mut W, r: &mut Rng) -> Res<()> {
    let mut xs = vec![];
    for _ in 0..8 {
        xs.extend(many_errors(r));
    }
    if xs.is_empty() {
        return Ok(());
    }
    let d = w.fresh()?;
    let paths = paths(w, &d, "m", xs.len(), r)?;
    let names: Vec<String> = paths.iter().map(|p| p.1.clone()).collect();
    for (p, x) in paths.iter().zip(&xs) {
        write(&d.join(&p.0), &x.0)?;
    }
    let mut a = vec!["scaffold".to_string()];
    a.extend(names.iter().cloned());
    let o = w.run(&d, &a)?;
    let e = run::parse_scaffold_err(&o.err());
    for (n, (text, want)) in names.iter().zip(&xs) {
        let res = (|| {
            let mut got = e.files.iter().find(|f| &f.file == n).map(|f| kinds(&f.diags)).unwrap_or_default();
            let mut exp: Vec<String> = want.iter().map(|x| x.0.clone()).collect();
            got.sort();
            exp.sort();
            diff("diagnoses", &exp, &got)
        })();
        res.map_err(|f: Fail| {
            f.file("spec.tree", text.as_bytes()).file("stderr.txt", &o.stderr).cmd("bulloak scaffold spec.tree")
        })?;
        w.stat_n("broken rules named in specs that break several", want.len() as u64);
        w.eval(text, true);
    }
    if o.code != Some(1) {
        return bad(format!("scaffold exits with {:?} after rejecting specs", o.code));
    }
    w.drop_dir(&d);
    Ok(())
}

fn check_place(x: &Defect, at: usize, g: &Diag) -> Res<()> {
    let (line, col) = place(&x.text, at);
    if at == 0 && g.at.is_none() {
        // A single character at the very start is reported without location.
        return Ok(());
    }
    if g.at != Some((line, col)) {
        return bad(format!("{} ({}): reported at {:?}, is at ({line}, {col})", x.kind, g.kind, g.at));
    }
    let want: &str = x.text.lines().nth(line - 1).unwrap_or("");
    let got = g.quoted.clone().unwrap_or_default();
    if got != want && got != want.trim_end() {
        return bad(format!("{}: quotes {got:?}, line {line} is {want:?}", x.kind));
    }
    match g.carets {
        Some((c, n)) if c == col && n >= 1 => match width(&x.text, at, &g.kind) {
            Some(k) if k != n => bad(format!("{} ({}): {n} carets under a place {k} columns wide", x.kind, g.kind)),
            _ => Ok(()),
        },
        c => bad(format!("{}: carets {c:?} do not start at column {col}", x.kind)),
    }
}

/// How wide the place of a diagnostic is, where that is clear.
fn width(text: &str, at: usize, kind: &str) -> Option<usize> {
    let rest = &text[at..];
    let word = rest.split(char::is_whitespace).next().unwrap_or("").chars().count();
    if kind.starts_with("unexpected token") || kind.starts_with("unexpected `w") {
        return Some(if rest.starts_with(['├', '└']) { 1 } else { word });
    }
    if kind.contains("with no children") {
        // A title that goes on ends in another line.
        let (line, below) = rest.split_once('\n').unwrap_or((rest, ""));
        let next = below.trim_start_matches(|c: char| c.is_whitespace() || c == '│' || c == '─');
        if !line.contains("//") && !line.contains('\r') && (next.is_empty() || next.starts_with(['├', '└'])) {
            return Some(line.trim_end().chars().count());
        }
    }
    None
}

pub fn c09(w: &mut W, r: &mut Rng, _: u64) -> Res<()> {
    let mut ds = batch(r);
    ds.retain(|x| x.at.is_some());
    let d = w.fresh()?;
    let paths = paths(w, &d, "s", ds.len(), r)?;
    let names: Vec<String> = paths.iter().map(|p| p.1.clone()).collect();
    for (p, x) in paths.iter().zip(&ds) {
        write(&d.join(&p.0), &x.text)?;
    }
    let mut a = vec!["scaffold".to_string()];
    a.extend(names.iter().cloned());
    let o = w.run(&d, &a)?;
    let cmd = format!("bulloak {}", a.join(" "));
    if let Some(c) = o.crash() {
        return bad(format!("scaffold {c}")).map_err(|mut f: Fail| {
            for (n, x) in names.iter().zip(&ds) {
                f = f.file(&n.replace('/', "_"), x.text.as_bytes());
            }
            f
        });
    }
    let e = run::parse_scaffold_err(&o.err());
    for (n, x) in names.iter().zip(&ds) {
        let res = (|| {
            let Some(f) = e.files.iter().find(|f| &f.file == n) else {
                return bad(format!("no diagnosis names the file {n} ({})", x.kind));
            };
            let Some(g) = f.diags.iter().find(|g| matches(x, &g.kind)) else {
                return bad(format!("{}: expected {:?}, got {:?}", x.kind, x.want, kinds(&f.diags)));
            };
            check_place(x, x.at.unwrap(), g)
        })();
        with_defect(res, x, &cmd)?;
        w.stat(&format!("located: {}", x.kind));
        let (l, c) = place(&x.text, x.at.unwrap());
        if l > 9 {
            w.stat("beyond line 9");
        }
        if c > 20 {
            w.stat("beyond column 20");
        }
        w.eval(&format!("{}{}{}", x.kind, l, x.text), true);
    }
    w.sample(|| format!("{}\n{}", ds[0].kind, ds[0].text.chars().take(500).collect::<String>()));
    c09_many(w, r)?;
    w.drop_dir(&d);
    Ok(())
}

/// A tree with several semantic errors, and the errors with their offsets.
pub fn many_errors(r: &mut Rng) -> Option<(String, Vec<(String, usize)>)> {
    let mut g = Gen::random(r);
    g.trees = 1;
    g.nest = g.nest.max(40);
    let mut s = spec::gen_spec(r, &g);
    let n = n_conds(&s.trees[0].items);
    if n < 2 {
        return None;
    }
    for _ in 0..r.range(1, 3) {
        let j = r.below(n_conds(&s.trees[0].items));
        with_cond(&mut s.trees[0].items, j, &mut |c| c.kids.clear());
    }
    if r.pct(60) {
        let mut cs: Vec<&Cond> = vec![];
        each_cond(&s.trees[0].items, &mut |c| cs.push(c));
        let mut copies = vec![];
        for _ in 0..r.range(1, 3) {
            let mut c = (*r.pick(&cs)).clone();
            c.kids.clear();
            copies.push(c);
        }
        for c in copies {
            let at = r.below(s.trees[0].items.len() + 1);
            s.trees[0].items.insert(at, Node::Cond(c));
        }
    }
    let mut lay = Layout::random(r);
    if r.pct(40) {
        // Titles of several lines end anywhere.
        lay.wrap = r.range(5, 40);
    }
    let text = spec::render(&mut s, &lay, r);
    let mut want: Vec<(String, usize)> = vec![];
    let mut seen: HashMap<String, Vec<Loc>> = HashMap::new();
    each_cond(&s.trees[0].items, &mut |c| {
        if c.kids.is_empty() {
            want.push(("found a condition with no children".into(), c.loc.branch.off));
        }
        seen.entry(model::cond_key(c)).or_default().push(c.loc);
    });
    for n in &s.trees[0].items {
        if let Node::Act(a) = n {
            seen.entry(model::act_key(a)).or_default().push(a.loc);
        }
    }
    for v in seen.into_values().filter(|v| v.len() > 1) {
        let mut v = v;
        v.sort_by_key(|l| l.branch.off);
        let ls: Vec<String> = v.iter().map(|l| l.branch.line.to_string()).collect();
        want.push((
            format!("found an identifier more than once in lines: {}", ls.join(", ")),
            v[0].branch.off,
        ));
    }
    want.sort();
    Some((text, want))
}

/// Several semantic errors in one tree: each is reported at its own place.
fn c09_many(w: &mut W, r: &mut Rng) -> Res<()> {
    let mut xs = vec![];
    for _ in 0..6 {
        xs.extend(many_errors(r));
    }
    if xs.is_empty() {
        return Ok(());
    }
    let d = w.fresh()?;
    let paths = paths(w, &d, "m", xs.len(), r)?;
    let names: Vec<String> = paths.iter().map(|p| p.1.clone()).collect();
    for (p, x) in paths.iter().zip(&xs) {
        write(&d.join(&p.0), &x.0)?;
    }
    let mut a = vec!["scaffold".to_string()];
    a.extend(names.iter().cloned());
    let o = w.run(&d, &a)?;
    let e = run::parse_scaffold_err(&o.err());
    for (n, (text, want)) in names.iter().zip(&xs) {
        let res = (|| {
            let Some(f) = e.files.iter().find(|f| &f.file == n) else {
                return bad("no diagnosis for a spec with several semantic errors");
            };
            let mut got: Vec<(String, Option<(usize, usize)>)> =
                f.diags.iter().map(|g| (g.kind.clone(), g.at)).collect();
            let mut exp: Vec<(String, Option<(usize, usize)>)> =
                want.iter().map(|(k, at)| (k.clone(), Some(place(text, *at)))).collect();
            got.sort();
            exp.sort();
            diff("semantic errors and their places", &exp, &got)?;
            for g in &f.diags {
                let (l, c) = g.at.unwrap();
                let line: &str = text.lines().nth(l - 1).unwrap_or("");
                let got = g.quoted.as_deref().unwrap_or("");
                if got != line && got != line.trim_end() || g.carets.map(|x| x.0) != Some(c) {
                    return bad(format!("{}: quotes {:?} with carets at {:?}", g.kind, g.quoted, g.carets));
                }
                let at = want.iter().map(|x| x.1).find(|&at| place(text, at) == (l, c));
                if let Some(k) = at.and_then(|at| width(text, at, &g.kind)) {
                    if g.carets.map(|x| x.1) != Some(k) {
                        return bad(format!("{}: carets {:?} under a place {k} columns wide", g.kind, g.carets));
                    }
                    w.stat("places underlined as a whole");
                }
            }
            Ok(())
        })();
        res.map_err(|f: Fail| {
            f.file("spec.tree", text.as_bytes()).file("stderr.txt", &o.stderr).cmd("bulloak scaffold spec.tree")
        })?;
        w.stat_n("errors located in specs with several", want.len() as u64);
        w.eval(text, true);
    }
    w.drop_dir(&d);
    Ok(())
}

//! C19: the tree of the syntax library, and its spans.
use crate::c_fuzz;
use crate::common::*;
use crate::engine::*;
use crate::model;
use crate::rng::Rng;
use crate::run;
use crate::spec::{self, Gen, Layout, Node, Pos, Spec};
use std::ffi::OsString;

#[derive(Clone, Debug, PartialEq, Eq)]
struct N {
    depth: usize,
    kind: char,
    text: String,
    start: Pos,
    end: Pos,
}

enum Seen {
    Nodes(Vec<N>),
    Rejected,
    Panicked,
}

struct Block {
    seen: Seen,
    one: Option<bool>,
}

fn unhex(s: &str) -> Option<String> {
    let s = s.strip_suffix('.')?;
    let mut v = vec![];
    for i in (0..s.len()).step_by(2) {
        v.push(u8::from_str_radix(s.get(i..i + 2)?, 16).ok()?);
    }
    String::from_utf8(v).ok()
}

fn probe(w: &mut W, texts: &[&[u8]]) -> Res<Vec<Block>> {
    let Some(bin) = w.o.probe.clone() else { return Err(Fail::Harness("no probe".into())) };
    let d = w.fresh()?;
    let names: Vec<String> = (0..texts.len()).map(|k| format!("p{k}.tree")).collect();
    for (n, t) in names.iter().zip(texts) {
        write(&d.join(n), t)?;
    }
    let args: Vec<OsString> = names.iter().map(OsString::from).collect();
    w.execs += 1;
    let o = run::run(&run::Cmd { bin: &bin, cwd: &d, args, env: vec![] }).map_err(Fail::Harness)?;
    if o.code != Some(0) {
        return Err(Fail::Harness(format!("the probe ended with {:?}, signal {:?}", o.code, o.signal)));
    }
    let mut blocks: Vec<Block> = vec![];
    for l in String::from_utf8_lossy(&o.stdout).lines() {
        let odd = || Fail::Harness(format!("the probe printed {l:?}"));
        if l.starts_with("F ") {
            blocks.push(Block { seen: Seen::Nodes(vec![]), one: None });
            continue;
        }
        let b = blocks.last_mut().ok_or_else(odd)?;
        match l {
            "E" => b.seen = Seen::Rejected,
            "P" => b.seen = Seen::Panicked,
            "1 true" => b.one = Some(true),
            "1 false" => b.one = Some(false),
            _ => {
                let f: Vec<&str> = l.split(' ').collect();
                if f.len() != 9 {
                    return Err(odd());
                }
                let n = |i: usize| f[i].parse::<usize>().map_err(|_| odd());
                let node = N {
                    depth: n(0)?,
                    kind: f[1].chars().next().unwrap_or('?'),
                    start: Pos { off: n(2)?, line: n(3)?, col: n(4)? },
                    end: Pos { off: n(5)?, line: n(6)?, col: n(7)? },
                    text: unhex(f[8]).ok_or_else(odd)?,
                };
                if let Seen::Nodes(v) = &mut b.seen {
                    v.push(node);
                }
            }
        }
    }
    if blocks.len() != texts.len() {
        return Err(Fail::Harness(format!("the probe printed {} blocks for {} files", blocks.len(), texts.len())));
    }
    w.drop_dir(&d);
    Ok(blocks)
}

/// The words of a title that becomes a name. What letters beyond ASCII turn
/// into is not specified.
fn title(s: &str) -> String {
    let s: String = s.chars().filter(|c| c.is_ascii() || c.is_whitespace()).collect();
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

fn sentence(kw: &str, ws: &[String]) -> String {
    std::iter::once(kw).chain(ws.iter().map(|s| s.as_str())).collect::<Vec<_>>().join(" ")
}

/// The nodes of a rendered spec, in preorder; returns the end of the last one.
fn walk(nodes: &[Node], depth: usize, out: &mut Vec<N>) -> Option<Pos> {
    let mut end = None;
    for n in nodes {
        let at = out.len();
        let (loc, kind, text) = match n {
            Node::Cond(c) => {
                let t: Vec<String> = c.words.iter().map(|x| model::sanitize(x)).collect();
                (c.loc, 'C', title(&sentence(&c.kw, &t)))
            }
            Node::Act(a) => (a.loc, 'A', sentence(&a.kw, &a.words)),
        };
        out.push(N { depth, kind, text, start: loc.branch, end: loc.last });
        let e = match n {
            Node::Cond(c) => walk(&c.kids, depth + 1, out),
            Node::Act(a) => {
                let mut e = None;
                for x in &a.descs {
                    out.push(N {
                        depth: depth + 1,
                        kind: 'D',
                        text: format!("{}{}", " ".repeat(x.delta), x.words.join(" ")),
                        start: x.loc.branch,
                        end: x.loc.last,
                    });
                    e = Some(x.loc.last);
                }
                e
            }
        };
        let e = e.unwrap_or(loc.last);
        out[at].end = e;
        end = Some(e);
    }
    end
}

fn expected(s: &Spec) -> Vec<N> {
    let mut v = vec![];
    for t in &s.trees {
        let at = v.len();
        v.push(N { depth: 0, kind: 'R', text: t.root(), start: t.loc.branch, end: t.loc.last });
        if let Some(e) = walk(&t.items, 1, &mut v) {
            v[at].end = e;
        }
    }
    v
}

fn describe(n: Option<&N>) -> String {
    match n {
        None => "nothing".into(),
        Some(n) => {
            let k = match n.kind {
                'R' => "root",
                'C' => "condition",
                'A' => "action",
                'D' => "description",
                _ => "unknown node",
            };
            let p = |p: &Pos| format!("{}:{} (byte {})", p.line, p.col, p.off);
            format!("{k} {:?} at depth {} from {} to {}", n.text, n.depth, p(&n.start), p(&n.end))
        }
    }
}

/// Every node of a well-formed spec.
pub fn trees(w: &mut W, r: &mut Rng, _: u64) -> Res<()> {
    let cs: Vec<Case> = (0..24)
        .map(|_| {
            let mut g = Gen::random(r);
            // Names do not matter here.
            g.unicode_names = r.pct(40);
            let spec = spec::gen_spec(r, &g);
            let mut lay = if r.pct(10) { Layout::plain() } else { Layout::random(r) };
            if r.pct(25) {
                lay.wrap = r.range(5, 40);
            }
            case_of(spec, &lay, r)
        })
        .collect();
    let texts: Vec<&[u8]> = cs.iter().map(|c| c.text.as_bytes()).collect();
    for (c, b) in cs.iter().zip(probe(w, &texts)?) {
        let fail = |what: String| with_case(bad::<()>(what), c, None, "build/probe/debug/bulloak-probe spec.tree");
        let got = match b.seen {
            Seen::Nodes(mut v) => {
                v.iter_mut().filter(|n| n.kind == 'C').for_each(|n| n.text = title(&n.text));
                v
            }
            Seen::Rejected => return fail("the library rejects a well-formed spec".into()),
            Seen::Panicked => return fail("the library panics on a well-formed spec".into()),
        };
        let want = expected(&c.spec);
        for i in 0..want.len().max(got.len()) {
            if want.get(i) != got.get(i) {
                return fail(format!("node {i}: expected {}, got {}", describe(want.get(i)), describe(got.get(i))));
            }
        }
        if b.one == Some(false) {
            return fail("parse_one and parse differ on a spec with one tree".into());
        }
        w.stat_n("nodes compared", got.len() as u64);
        for k in ['R', 'C', 'A', 'D'] {
            w.stat_n(&format!("nodes of kind {k}"), got.iter().filter(|n| n.kind == k).count() as u64);
        }
        if !c.text.is_ascii() && c.text.contains("\r\n") {
            w.stat("specs with CRLF");
        }
        w.stat(if c.spec.trees.len() > 1 { "specs of several trees" } else { "specs of one tree" });
        w.eval(&c.text, got.len() > 2);
    }
    w.sample(|| cs[0].text.clone());
    Ok(())
}

/// What must hold for the nodes of any text at all.
fn coherent(text: &str, ns: &[N]) -> Result<(), String> {
    let at = |p: &Pos| -> Result<char, String> {
        if p.off >= text.len() || !text.is_char_boundary(p.off) {
            return Err(format!("byte {} is not the start of a character", p.off));
        }
        let before = &text[..p.off];
        let line = before.matches('\n').count() + 1;
        let col = before.rsplit('\n').next().unwrap_or("").chars().count() + 1;
        if (line, col) != (p.line, p.col) {
            return Err(format!("byte {} is at {line}:{col}, not at {}:{}", p.off, p.line, p.col));
        }
        Ok(text[p.off..].chars().next().unwrap())
    };
    // The innermost open nodes.
    let mut open: Vec<&N> = vec![];
    let mut prev_at: Vec<Option<usize>> = vec![];
    for n in ns {
        let say = |m: &str| format!("{m}: {}", describe(Some(n)));
        let a = at(&n.start).map_err(|e| say(&e))?;
        let b = at(&n.end).map_err(|e| say(&e))?;
        if n.start.off > n.end.off {
            return Err(say("the span ends before it starts"));
        }
        if n.kind != 'R' && a != '├' && a != '└' {
            return Err(say("the span does not start at a branch"));
        }
        if n.kind == 'R' && !text[n.start.off..].starts_with(&n.text) {
            return Err(say("the root does not start with its name"));
        }
        if b.is_whitespace() || text[n.end.off + b.len_utf8()..].chars().next().is_some_and(|c| !c.is_whitespace()) {
            return Err(say("the span does not end at the end of a word"));
        }
        // Between the end of a node and the next one, nothing but the layout.
        open.truncate(n.depth);
        prev_at.truncate(n.depth + 1);
        if open.len() != n.depth || (n.depth == 0) != (n.kind == 'R') {
            return Err(say("misplaced node"));
        }
        if let Some(p) = open.last() {
            if n.start.off <= p.start.off || n.end.off > p.end.off {
                return Err(say("the span is not inside its parent's"));
            }
            if p.kind != 'R' && n.start.col <= p.start.col {
                return Err(say("the node is not indented more than its parent"));
            }
            let ok = match p.kind {
                'R' | 'C' => n.kind == 'C' || n.kind == 'A',
                'A' => n.kind == 'D',
                _ => false,
            };
            if !ok {
                return Err(say("a node of this kind cannot be here"));
            }
        }
        if prev_at.len() <= n.depth {
            prev_at.resize(n.depth + 1, None);
        }
        if prev_at[n.depth].is_some_and(|e| n.start.off <= e) {
            return Err(say("the span overlaps the one of its sibling"));
        }
        prev_at[n.depth] = Some(n.end.off);
        let key = n.text.trim_start().split(' ').next().unwrap_or("").to_lowercase();
        let ok = match n.kind {
            'C' => key == "when" || key == "given",
            'A' => key == "it",
            _ => true,
        };
        if !ok {
            return Err(say("the node does not start with its keyword"));
        }
        open.push(n);
    }
    // A parent ends where its last descendant does, if it has one.
    for (i, n) in ns.iter().enumerate() {
        let kids: Vec<&N> = ns[i + 1..].iter().take_while(|m| m.depth > n.depth).collect();
        if let Some(l) = kids.iter().map(|k| k.end.off).max() {
            if l != n.end.off {
                return Err(format!("the span does not end with its last descendant: {}", describe(Some(n))));
            }
        }
    }
    Ok(())
}

/// Texts in any state.
pub fn any(w: &mut W, r: &mut Rng, _: u64) -> Res<()> {
    let xs: Vec<(Vec<u8>, &'static str)> = (0..24).map(|_| c_fuzz::fuzz_spec(r)).collect();
    let texts: Vec<&[u8]> = xs.iter().map(|x| &x.0[..]).collect();
    for (x, b) in xs.iter().zip(probe(w, &texts)?) {
        let fail = |what: String| {
            bad::<()>(what).map_err(|f| f.file("spec.tree", &x.0).cmd("build/probe/debug/bulloak-probe spec.tree"))
        };
        match b.seen {
            Seen::Rejected => {
                w.stat("any text: rejected");
                continue;
            }
            Seen::Panicked => return fail("the library panics".into()),
            Seen::Nodes(ns) => {
                let Ok(text) = std::str::from_utf8(&x.0) else {
                    return fail("accepted what is not UTF-8".into());
                };
                coherent(text, &ns).or_else(fail)?;
                if b.one == Some(false) {
                    w.stat("any text: parse_one differs");
                }
                w.stat(&format!("any text: {}", x.1));
                w.stat_n("nodes of any text", ns.len() as u64);
                w.eval(text, ns.len() > 2);
            }
        }
    }
    Ok(())
}

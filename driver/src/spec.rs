//! Abstract specs, their random generation and their rendering as `.tree` text.
//!
//! Rendering records where every node ends up (line, column, byte offset), so
//! that the monitors can judge reported locations without parsing anything.
use crate::model;
use crate::rng::Rng;
use std::collections::HashSet;
use std::sync::OnceLock;

/// Words and numbers that occur in the sources under test. They only steer the
/// workload (like the automatic dictionary of a fuzzer); no oracle uses them.
pub struct Dict {
    /// What may be the names of environment variables.
    pub env: Vec<String>,
    /// What may be the names of configuration files.
    pub files: Vec<String>,
    pub cond: Vec<String>,
    pub act: Vec<String>,
    pub nums: Vec<usize>,
}
/// Whether stretched specifications may be very large.
pub static BIG: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Whether names may contain letters beyond ASCII.
pub static LETTERS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub static DICT: OnceLock<Dict> = OnceLock::new();

pub fn dict() -> &'static Dict {
    DICT.get_or_init(|| Dict { cond: vec![], act: vec![], nums: vec![], env: vec![], files: vec![] })
}

/// A size worth trying: small, a power of two, or near a constant of the code.
pub fn size(r: &mut Rng, max: usize) -> usize {
    let d = dict();
    let n = match r.below(4) {
        0 if !d.nums.is_empty() => *r.pick(&d.nums) + r.below(3),
        1 => (1usize << r.below(if max > 150 { 10 } else { 7 })) + r.below(3),
        2 => r.range(1, max),
        _ => r.range(1, 12),
    };
    n.clamp(1, max)
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Pos {
    pub off: usize,
    pub line: usize,
    pub col: usize,
}

/// Where a node was rendered.
#[derive(Clone, Copy, Debug, Default)]
pub struct Loc {
    /// The branch character (or the first character of a root).
    pub branch: Pos,
    /// The first character of the first word after the branch.
    pub word: Pos,
    /// The last character of the node's own title.
    pub last: Pos,
}

#[derive(Clone, Debug)]
pub struct Desc {
    /// Distance between the branch of the description and of its action, in
    /// columns. Set by the renderer.
    pub delta: usize,
    pub depth: usize,
    pub words: Vec<String>,
    pub loc: Loc,
}

#[derive(Clone, Debug)]
pub struct Act {
    /// The keyword as written (`it`, `It`, ...).
    pub kw: String,
    pub words: Vec<String>,
    pub descs: Vec<Desc>,
    pub loc: Loc,
}

#[derive(Clone, Debug)]
pub struct Cond {
    /// The keyword as written (`when`, `Given`, ...).
    pub kw: String,
    pub words: Vec<String>,
    pub kids: Vec<Node>,
    pub loc: Loc,
}

#[derive(Clone, Debug)]
pub enum Node {
    Cond(Cond),
    Act(Act),
}

#[derive(Clone, Debug)]
pub struct Tree {
    pub contract: String,
    pub func: Option<String>,
    pub items: Vec<Node>,
    pub loc: Loc,
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub trees: Vec<Tree>,
}

impl Tree {
    pub fn root(&self) -> String {
        match &self.func {
            Some(f) => format!("{}::{}", self.contract, f),
            None => self.contract.clone(),
        }
    }
}

/// Knobs of the generator.
#[derive(Clone, Debug)]
pub struct Gen {
    pub max_depth: usize,
    pub max_width: usize,
    pub budget: usize,
    pub trees: usize,
    /// Percentage of conditions that contain nested conditions.
    pub nest: usize,
    /// Percentage of titles that contain odd words.
    pub odd: usize,
    /// Whether names may contain non-ASCII letters.
    pub unicode_names: bool,
    /// Whether they may contain those of `KNOWN`.
    pub known: bool,
    /// Percentage of first actions that are a revert variant.
    pub revert: usize,
    pub descs: usize,
}

impl Gen {
    pub fn random(r: &mut Rng) -> Gen {
        let big = r.pct(8);
        let shape = r.below(10);
        let (max_depth, max_width, nest) = match shape {
            0 => (12, 2, 90),
            1 => (2, 12, 20),
            2 => (30, 2, 97),
            3 => (4, 6, 60),
            _ => (5, 4, 45),
        };
        Gen {
            max_depth,
            max_width,
            budget: if big { r.range(40, 160) } else { r.range(1, 28) },
            trees: match r.below(10) {
                0..=5 => 1,
                6 | 7 => 2,
                8 => 3,
                _ => r.range(2, 9),
            },
            nest,
            odd: *r.pick(&[0, 10, 40, 80]),
            unicode_names: false,
            known: LETTERS.load(std::sync::atomic::Ordering::Relaxed) && r.pct(25),
            revert: 35,
            descs: *r.pick(&[0, 20, 60]),
        }
    }
}

pub const PLAIN: &[&str] = &[
    "the", "a", "caller", "is", "not", "owner", "stream", "balance", "zero", "first", "Token",
    "ERC20", "x", "B", "called", "amount", "exceeds", "MAX_UINT", "reverts", "owner", "of",
    "depleted", "paused", "and", "or", "time", "has", "passed", "ID", "count1", "2", "10", "a1",
    "sender", "revert", "should", "foo", "Bar", "test", "modifier", "function", "contract", "true",
    "external", "skip", "vm", "hook", "cold", "warm", "emit", "events", "it", "when", "given",
];
const ODD_COND: &[&str] = &[
    "non-zero", "re-entrant", "caller's", "\"quoted\"", "'single'", "snake_case_word", "_lead",
    "trail_", "-dash", "dash-", "a-b-c", "When", "GIVEN", "It", "it's", "iT", "camelCase",
    "PascalCase", "ALLCAPS", "0x00", "007", "9lives", "__", "--x", "l'hôpital",
];
const ODD_ACT: &[&str] = &[
    "revert.", "{MetadataUpdate}", "event,", "`keccak256(abi.encodePacked(a,b))`", "a/b", "a//b",
    "https://x.y/z?q=1#f", "100%", "x*/y", "/*", "*/", "{", "}", "};", "(0,", "1)", "<->", "→", "∞", "é",
    "日本", "😀", "\"q\"", "'s", "\\n", "\\", "$x", "#1", "@dev", "a├b", "a│b", "x─y", "end-of-line-",
    "@", "...", "!", "?", "—", "it,", "when:", "given.", ";", "-", "--", "_", "=>", "&&", "||", "~", "^", "%s",
    "{}", "${x}", "<b>", "[0]", "a.b.c", "0.1", "1e18", "€5", "x²", "½", "\"x\";", "\";", "x;", "\";\"", "vm.skip(true);",
    "function", "modifier", "contract", "_;", "),", "{}", "\"a", "b\"", "\\\"", "\\n", "0x", "'", "\"", "``", "`x`;",
    "(test_x)", "`test_`", "*test_test_", "test_x",
];
const UNI_COND: &[&str] = &["café", "niño", "Ωmega", "日本", "über", "straße", "x²", "½"];

/// Words with characters of which it is clear whether they can be part of an
/// identifier, as being alphabetic decides it.
const KNOWN: &[&str] = &[
    "été", "übung", "ñandú", "Ωmega", "日本", "straße", "ßtart", "жук", "ärger", "x²", "½", "²x", "ǆep", "éCole",
    "naïve", "𐐨long", "𐐀", "ŉo", "ﬁne", "_é", "é_x", "-é", "²½", "Éa", "中-心", "a½b", "x³y", "𝒳", "µs",
];

pub fn plain_word(r: &mut Rng) -> String {
    (*r.pick(PLAIN)).to_string()
}

fn cond_word(r: &mut Rng, g: &Gen) -> String {
    if g.known && r.pct(15) {
        return (*r.pick(KNOWN)).to_string();
    }
    if r.pct(7) && !dict().cond.is_empty() {
        return r.pick(&dict().cond).clone();
    }
    if r.pct(6) {
        return letters(r);
    }
    if r.pct(g.odd) {
        if g.unicode_names && r.pct(30) {
            return (*r.pick(UNI_COND)).to_string();
        }
        let w = *r.pick(ODD_COND);
        if !g.unicode_names && !w.is_ascii() {
            return "odd-one".into();
        }
        w.to_string()
    } else {
        plain_word(r)
    }
}

pub fn act_word(r: &mut Rng, odd: usize, ascii: bool) -> String {
    if r.pct(5) && !dict().act.is_empty() {
        return r.pick(&dict().act).clone();
    }
    if r.pct(4) {
        return letters(r);
    }
    if r.pct(odd) {
        if r.pct(15) {
            return random_chars(r, ascii);
        }
        let w = *r.pick(ODD_ACT);
        if ascii && !w.is_ascii() {
            // Non-ASCII letters would end up in a name; symbols are dropped.
            return (*r.pick(&["→", "€5", "—", "…", "\"x\"", "(y)"])).to_string();
        }
        w.to_string()
    } else {
        plain_word(r)
    }
}

/// A word made of random letters, digits and the signs allowed in titles.
fn letters(r: &mut Rng) -> String {
    const CS: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-'\"";
    let n = if r.pct(10) { r.range(20, 70) } else { r.range(1, 9) };
    let most = if r.pct(70) { 52 } else { CS.len() };
    let w: String = (0..n).map(|_| CS[r.below(most)] as char).collect();
    if is_kw(&w) { "letters".into() } else { w }
}

/// A word made of random printable characters.
fn random_chars(r: &mut Rng, ascii: bool) -> String {
    let n = r.range(1, 8);
    let w: String = (0..n)
        .map(|_| loop {
            let hi = *r.pick(&[0x7f, 0x7f, 0x250, 0x600, 0x3000, 0xffff, 0x2ffff]);
            let hi = if ascii { 0x7f } else { hi };
            let Some(c) = char::from_u32(r.range(0x21, hi) as u32) else { continue };
            if !c.is_whitespace() && !c.is_control() && !"├└│─".contains(c) && c != '\u{feff}' {
                break c;
            }
        })
        .collect();
    if w.starts_with("//") || is_kw(&w) { "chars".into() } else { w }
}

fn kw_case(r: &mut Rng, kw: &str) -> String {
    if r.pct(75) {
        kw.to_string()
    } else if r.pct(70) {
        model::upper_first(kw)
    } else {
        match r.below(2) {
            0 => kw.to_uppercase(),
            _ => {
                let mut s: Vec<char> = kw.chars().collect();
                let i = r.below(s.len());
                s[i] = s[i].to_ascii_uppercase();
                s.into_iter().collect()
            }
        }
    }
}

pub fn desc_words(r: &mut Rng, odd: usize) -> Vec<String> {
    let n = r.range(1, 6);
    let mut ws: Vec<String> = (0..n).map(|_| act_word(r, odd, false)).collect();
    // A description starts with a plain word, not with a keyword.
    while is_kw(&ws[0]) {
        ws[0] = act_word(r, odd, false);
    }
    ws
}

pub fn is_kw(w: &str) -> bool {
    matches!(w.to_lowercase().as_str(), "when" | "given" | "it")
}

fn gen_act(r: &mut Rng, g: &Gen, top: bool, first: bool) -> Act {
    let kw = kw_case(r, "it");
    let words: Vec<String> = if !top && r.pct(if first { g.revert } else { 12 }) {
        let v: &[&str] = *r.pick(&[
            &["should", "revert"][..],
            &["should", "revert"][..],
            &["should", "revert"][..],
            &["should", "revert."][..],
            &["Should", "REVERT"][..],
            &["should", "revert!"][..],
            &["should", "revert", "early"][..],
            &["should", "not", "revert"][..],
            &["should", "\"revert\""][..],
            &["should", "revert", "."][..],
            &["should", "re-vert"][..],
            &["reverts"][..],
            &["should", "reverts"][..],
            &["will", "revert"][..],
        ]);
        let mut v: Vec<String> = v.iter().map(|s| s.to_string()).collect();
        if r.pct(15) {
            // Another word makes another action.
            let x = *r.pick(&["always", "never", "also", "only", "still", "then", "it", "now", "the", "call", "with", "reverts"]);
            v.insert(r.below(v.len() + 1), x.to_string());
        }
        v
    } else {
        // An action needs no title.
        let n = match r.below(100) {
            0..=4 => r.range(8, 25),
            5 | 6 => 0,
            _ => r.range(1, 6),
        };
        (0..n)
            .map(|_| {
                if g.known && r.pct(15) {
                    (*r.pick(KNOWN)).to_string()
                } else {
                    act_word(r, g.odd, top && !g.unicode_names)
                }
            })
            .collect()
    };
    let mut descs = vec![];
    if r.pct(g.descs) {
        let mut depth = 1;
        for _ in 0..r.range(1, 4) {
            descs.push(Desc { delta: 0, depth, words: desc_words(r, g.odd), loc: Loc::default() });
            depth = match r.below(3) {
                0 => depth + 1,
                1 => r.range(1, depth),
                _ => depth,
            };
        }
    }
    Act { kw, words, descs, loc: Loc::default() }
}

fn gen_cond(r: &mut Rng, g: &Gen, depth: usize, left: &mut usize) -> Cond {
    let kw = if r.pct(60) { "when" } else { "given" };
    let kw = kw_case(r, kw);
    let n = if r.pct(4) { r.range(8, 20) } else { r.range(1, 5) };
    let words = (0..n).map(|_| cond_word(r, g)).collect();
    let mut kids = vec![];
    let nest = depth < g.max_depth && *left > 0 && r.pct(g.nest);
    let width = r.range(1, g.max_width);
    for i in 0..width {
        if i > 0 && *left == 0 {
            break;
        }
        *left = left.saturating_sub(1);
        if nest && r.pct(55) && *left > 0 {
            kids.push(Node::Cond(gen_cond(r, g, depth + 1, left)));
        } else {
            let first = !kids.iter().any(|k| matches!(k, Node::Act(_)));
            kids.push(Node::Act(gen_act(r, g, false, first)));
        }
    }
    if nest && !kids.iter().any(|k| matches!(k, Node::Cond(_))) {
        kids.push(Node::Cond(gen_cond(r, g, depth + 1, left)));
    }
    Cond { kw, words, kids, loc: Loc::default() }
}

const CONTRACTS: &[&str] =
    &["Foo", "FooTest", "Foo_Test", "CancelTest", "A", "MyContract", "HashPairTest", "_Foo", "foo", "T0"];
const FUNCS: &[&str] = &[
    "bar", "hashPair", "min", "Max", "a", "cancel", "with-draw", "with_draw", "foo.bar", "set2", "mint", "burn",
    "x::y", "deposit", "transfer", "approve", "_bar", "__bar", "_", "bar_", "_Max", "test_", "test", "é",
];

pub fn gen_spec(r: &mut Rng, g: &Gen) -> Spec {
    let contract = if r.pct(85) {
        (*r.pick(CONTRACTS)).to_string()
    } else {
        (*r.pick(&["Foo-Test", "Foo.Test", "My$Test", "Foo'", "F(x)"])).to_string()
    };
    let mut trees: Vec<Tree> = vec![];
    for t in 0..g.trees {
        let func = if g.trees > 1 {
            let f = *r.pick(FUNCS);
            Some(if f.is_ascii() || g.known { f } else { "bar" }.to_string())
        } else if r.pct(10) {
            Some("fn".to_string())
        } else {
            None
        };
        let mut left = (g.budget / g.trees).max(1);
        let mut items = vec![];
        let width = r.range(1, g.max_width.max(3));
        for _ in 0..width {
            if !items.is_empty() && left == 0 {
                break;
            }
            left = left.saturating_sub(1);
            // Later trees often share conditions with earlier ones.
            if t > 0 && r.pct(40) {
                let k = r.below(trees.len());
                let src: Vec<&Node> =
                    trees[k].items.iter().filter(|n| matches!(n, Node::Cond(_))).collect();
                if !src.is_empty() {
                    let mut n = (*r.pick(&src)).clone();
                    if r.pct(50) {
                        prune(r, &mut n);
                    }
                    items.push(n);
                    continue;
                }
            }
            if r.pct(35) {
                items.push(Node::Act(gen_act(r, g, true, true)));
            } else {
                items.push(Node::Cond(gen_cond(r, g, 1, &mut left)));
            }
        }
        trees.push(Tree { contract: contract.clone(), func, items, loc: Loc::default() });
    }
    let mut s = Spec { trees };
    if r.pct(12) {
        stretch(r, &mut s, g);
    }
    dedup(r, &mut s);
    s
}

/// Makes one dimension of the spec large.
fn stretch(r: &mut Rng, s: &mut Spec, g: &Gen) {
    let k = r.below(s.trees.len());
    let flat = Gen { max_depth: 1, max_width: 2, nest: 0, descs: 10, ..g.clone() };
    let what = r.below(7);
    // Now and then beyond what fits a byte. Not for `check --fix`, which takes
    // minutes to insert hundreds of functions.
    let big = if BIG.load(std::sync::atomic::Ordering::Relaxed) && r.pct(8) { 8 } else { 1 };
    match what {
        // Many conditions and actions under the root.
        0 => {
            for _ in 0..size(r, 90 * big) {
                let n = if r.pct(60) {
                    Node::Cond(gen_cond(r, &flat, 1, &mut 2))
                } else {
                    Node::Act(gen_act(r, &flat, true, true))
                };
                s.trees[k].items.push(n);
            }
        }
        // Deep nesting, sometimes coming back up again.
        1 => {
            let depth = size(r, 70 * big.min(3));
            let mut c = gen_cond(r, &flat, 1, &mut 2);
            for _ in 0..depth {
                let mut up = gen_cond(r, &flat, 1, &mut 1);
                if r.pct(50) {
                    up.kids.clear();
                }
                up.kids.push(Node::Cond(c));
                if r.pct(30) {
                    up.kids.push(Node::Act(gen_act(r, &flat, false, false)));
                }
                if r.pct(30) {
                    up.kids.push(Node::Cond(gen_cond(r, &flat, 1, &mut 2)));
                }
                c = up;
            }
            let at = r.below(s.trees[k].items.len() + 1);
            s.trees[k].items.insert(at, Node::Cond(c));
        }
        // Many actions, or conditions, in one condition.
        2 | 3 => {
            let mut c = gen_cond(r, &flat, 1, &mut 2);
            for _ in 0..size(r, 90 * big) {
                let n = if what == 2 || r.pct(30) {
                    Node::Act(gen_act(r, &flat, false, false))
                } else {
                    Node::Cond(gen_cond(r, &flat, 1, &mut 2))
                };
                c.kids.push(n);
            }
            s.trees[k].items.push(Node::Cond(c));
        }
        // Many words.
        4 => {
            let mut c = gen_cond(r, &flat, 1, &mut 2);
            let n = size(r, 60 * big);
            c.words = (0..n).map(|_| cond_word(r, g)).collect();
            let mut a = gen_act(r, &flat, false, false);
            let n = size(r, 60 * big);
            a.words = (0..n).map(|_| act_word(r, g.odd, false)).collect();
            c.kids.push(Node::Act(a));
            twins(r, &mut s.trees[k].items, c, &flat);
        }
        // Long words.
        5 => {
            let mut c = gen_cond(r, &flat, 1, &mut 2);
            let n = size(r, 90 * big);
            let w: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
            c.words.push(w);
            twins(r, &mut s.trees[k].items, c, &flat);
        }
        // Many descriptions.
        _ => {
            let mut a = gen_act(r, &flat, false, false);
            let mut depth = 1;
            for _ in 0..size(r, 60 * big) {
                a.descs.push(Desc { delta: 0, depth, words: desc_words(r, g.odd), loc: Loc::default() });
                depth = match r.below(3) {
                    0 => depth + 1,
                    1 => r.range(1, depth),
                    _ => depth,
                };
            }
            let mut c = gen_cond(r, &flat, 1, &mut 2);
            c.kids.push(Node::Act(a));
            s.trees[k].items.push(Node::Cond(c));
        }
    }
}

/// Adds a condition, sometimes with a modifier, and sometimes together with
/// another one whose title only ends otherwise.
fn twins(r: &mut Rng, items: &mut Vec<Node>, mut c: Cond, g: &Gen) {
    if r.pct(60) {
        c.kids.push(Node::Cond(gen_cond(r, g, 1, &mut 1)));
    }
    if r.pct(40) {
        let mut t = c.clone();
        t.kids.retain(|k| matches!(k, Node::Act(_)));
        t.kids.push(Node::Cond(gen_cond(r, g, 1, &mut 1)));
        match t.words.last_mut() {
            Some(w) if r.pct(50) => w.push('x'),
            _ => t.words.push("too".into()),
        }
        items.push(Node::Cond(t));
    }
    items.push(Node::Cond(c));
}

/// Drops some children of a copied condition, keeping it non-empty.
fn prune(r: &mut Rng, n: &mut Node) {
    if let Node::Cond(c) = n {
        while c.kids.len() > 1 && r.pct(40) {
            let i = r.below(c.kids.len());
            c.kids.remove(i);
        }
        if r.pct(40) {
            c.kids.push(Node::Act(Act {
                kw: "it".into(),
                words: vec!["should".into(), "add".into(), format!("x{}", r.below(1000))],
                descs: vec![],
                loc: Loc::default(),
            }));
        }
        for k in &mut c.kids {
            if r.pct(50) {
                prune(r, k);
            }
        }
    }
}

/// Makes all names unique where the tool requires it, by adding words.
pub fn dedup(r: &mut Rng, s: &mut Spec) {
    let _ = r;
    let mut counter = 0;
    let multi = s.trees.len() > 1;
    // Tree roots: distinct function parts (after sanitising and capitalising).
    let mut funcs: HashSet<String> = HashSet::new();
    if multi {
        for t in &mut s.trees {
            loop {
                let f = model::upper_first(&model::sanitize(t.func.as_deref().unwrap_or("")));
                if !f.is_empty() && funcs.insert(f) {
                    break;
                }
                counter += 1;
                t.func = Some(format!("{}{}", t.func.clone().unwrap_or_default(), counter));
            }
        }
    }
    let mut tests: HashSet<String> = HashSet::new();
    for t in &mut s.trees {
        let prefix = if multi {
            model::upper_first(&model::sanitize(t.func.as_deref().unwrap_or("")))
        } else {
            String::new()
        };
        let mut keys: HashSet<String> = HashSet::new();
        for n in &mut t.items {
            fix_node(n, true, &prefix, &mut keys, &mut tests, &mut counter);
        }
    }
}

fn fix_node(
    n: &mut Node,
    top: bool,
    prefix: &str,
    keys: &mut HashSet<String>,
    tests: &mut HashSet<String>,
    counter: &mut usize,
) {
    match n {
        Node::Act(a) if top => loop {
            // A layout may change the case of the keyword.
            let key = model::act_key(&Act { kw: "it".into(), ..a.clone() });
            let name = model::top_test_name(a, prefix);
            if !keys.contains(&key) && !tests.contains(&name) {
                keys.insert(key);
                tests.insert(name);
                break;
            }
            *counter += 1;
            a.words.push(format!("n{counter}"));
        },
        Node::Act(_) => {}
        Node::Cond(c) => {
            loop {
                let key = model::cond_key(c);
                let name = model::cond_test_name(c, prefix);
                let clash = name.as_ref().is_some_and(|n| tests.contains(n));
                if !keys.contains(&key) && !clash {
                    keys.insert(key);
                    if let Some(n) = name {
                        tests.insert(n);
                    }
                    break;
                }
                *counter += 1;
                c.words.push(format!("n{counter}"));
            }
            for k in &mut c.kids {
                fix_node(k, false, prefix, keys, tests, counter);
            }
        }
    }
}

/// How to lay a spec out.
#[derive(Clone, Debug)]
pub struct Layout {
    pub base: usize,
    pub indent: usize,
    pub vary_indent: bool,
    pub dashes: usize,
    pub gap: usize,
    pub guides: bool,
    pub tabs: bool,
    /// Percentage of lines that end in CRLF.
    pub crlf: usize,
    pub final_newline: bool,
    pub leading_blank: usize,
    pub trailing_blank: usize,
    /// Percentages.
    pub comment_lines: usize,
    pub trailing_comments: usize,
    pub trailing_space: usize,
    pub wide_gaps: usize,
    pub blank_like: usize,
    pub sep_blank: usize,
    pub sep_comment: usize,
    /// Words may be separated by unusual whitespace.
    pub odd_space: bool,
    /// Percentage of words that start a new line.
    pub wrap: usize,
}

impl Layout {
    pub fn plain() -> Layout {
        Layout {
            base: 1,
            indent: 4,
            vary_indent: false,
            dashes: 2,
            gap: 1,
            guides: true,
            tabs: false,
            crlf: 0,
            final_newline: true,
            leading_blank: 0,
            trailing_blank: 0,
            comment_lines: 0,
            trailing_comments: 0,
            trailing_space: 0,
            wide_gaps: 0,
            blank_like: 0,
            sep_blank: 1,
            sep_comment: 0,
            odd_space: false,
            wrap: 0,
        }
    }
    pub fn random(r: &mut Rng) -> Layout {
        if r.pct(15) {
            return Layout::plain();
        }
        let messy = r.pct(60);
        let p = |r: &mut Rng, hi: usize| if messy { *r.pick(&[0, 0, 10, hi]) } else { 0 };
        Layout {
            base: if r.pct(80) { 1 } else { r.range(1, 9) },
            indent: *r.pick(&[1, 2, 3, 4, 4, 4, 5, 8]),
            vary_indent: r.pct(15),
            dashes: *r.pick(&[0, 1, 2, 2, 2, 3, 6]),
            gap: *r.pick(&[0, 1, 1, 1, 1, 2, 4]),
            guides: r.pct(70),
            tabs: r.pct(8),
            crlf: *r.pick(&[0, 0, 0, 0, 0, 0, 0, 100, 100, 50]),
            final_newline: r.pct(75),
            leading_blank: match r.below(1000) {
                // More lines than fit in two bytes.
                0 | 1 => 66_000,
                2..=250 => r.range(1, 4),
                _ => 0,
            },
            trailing_blank: if r.pct(25) { r.range(1, 4) } else { 0 },
            comment_lines: p(r, 40),
            trailing_comments: p(r, 40),
            trailing_space: p(r, 50),
            wide_gaps: p(r, 40),
            blank_like: p(r, 15),
            sep_blank: *r.pick(&[1, 1, 1, 2, 3, 5]),
            sep_comment: p(r, 60),
            odd_space: messy && r.pct(15),
            wrap: 0,
        }
    }
}

struct Out<'a> {
    s: String,
    pos: Pos,
    lay: &'a Layout,
}

impl Out<'_> {
    fn push(&mut self, t: &str) {
        for c in t.chars() {
            self.s.push(c);
            self.pos.off += c.len_utf8();
            if c == '\n' {
                self.pos.line += 1;
                self.pos.col = 1;
            } else {
                self.pos.col += 1;
            }
        }
    }
    fn nl(&mut self) {
        let x = (self.pos.off as u64 ^ self.pos.line as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 33;
        let t = if (x % 100) < self.lay.crlf as u64 { "\r\n" } else { "\n" };
        self.push(t);
    }
}

const NOTES: &[&str] = &[
    "// a comment", "//", "// └── when commented out", "// Foo::bar", "/// doc", "// it \"x\" {",
    "// é → ∞", "//└── it x", "// when", "//├", "// a\rit b", "//\r└── it works", "// x\u{b}when\u{c}y",
    "// \u{2028}├── it\u{85}x", "// a // b", "//\twhen\ty",
    "// goes on \\", "//\\", "// /* opened", "/////", "// a */", "//--", "// TODO(x): it [y]", "//! {}", "//'", "// 100%",
];

fn comment(r: &mut Rng) -> String {
    (*r.pick(NOTES)).to_string()
}

/// Writes words separated by blanks; returns the positions of the first
/// character of the first word and of the last character of the last word.
fn words(o: &mut Out, r: &mut Rng, ws: &[&str]) -> (Pos, Pos) {
    let mut first = o.pos;
    let mut last = o.pos;
    for (i, w) in ws.iter().enumerate() {
        if i > 0 && o.lay.wrap > 0 && r.pct(o.lay.wrap) {
            o.nl();
            let n = if r.pct(70) { r.below(12) } else { r.below(60) };
            o.push(&" ".repeat(n));
        } else if i > 0 {
            let n = if r.pct(o.lay.wide_gaps) { r.range(2, 5) } else { 1 };
            for _ in 0..n {
                let sp = if o.lay.odd_space && r.pct(20) {
                    *r.pick(&["\u{a0}", "\u{2003}", "\u{3000}", "\t"])
                } else {
                    " "
                };
                o.push(sp);
            }
        }
        if i == 0 {
            first = o.pos;
        }
        for c in w.chars() {
            last = o.pos;
            let mut b = [0; 4];
            o.push(c.encode_utf8(&mut b));
        }
    }
    (first, last)
}

/// Ends a title line: optional trailing comment, optional trailing spaces,
/// newline, and optional interleaved comment lines.
fn end_line(o: &mut Out, r: &mut Rng, last_line: bool) {
    if r.pct(o.lay.trailing_comments) {
        let n = r.range(1, 3);
        o.push(&" ".repeat(n));
        let c = comment(r);
        o.push(&c);
    }
    if r.pct(o.lay.trailing_space) {
        let n = r.range(1, 4);
        o.push(&" ".repeat(n));
        if r.pct(20) {
            o.push("\t");
        }
    }
    if last_line {
        return;
    }
    o.nl();
    while r.pct(o.lay.comment_lines.min(60)) {
        let n = r.below(8);
        o.push(&" ".repeat(n));
        let c = comment(r);
        o.push(&c);
        o.nl();
    }
    if r.pct(o.lay.blank_like) {
        // A line with blanks only does not separate trees.
        let t = (*r.pick(&["  ", " ", "\t", "│", "    │   "])).to_string();
        o.push(&t);
        o.nl();
    }
}

fn prefix(o: &mut Out, col: usize, guides: &[usize]) {
    while o.pos.col < col {
        let c = o.pos.col;
        if o.lay.guides && guides.contains(&c) {
            o.push("│");
        } else if o.lay.tabs {
            o.push("\t");
        } else {
            o.push(" ");
        }
    }
}

struct Cursor {
    left: usize,
}

fn branch(o: &mut Out, col: usize, guides: &[usize], last: bool) -> Pos {
    prefix(o, col, guides);
    let p = o.pos;
    o.push(if last { "└" } else { "├" });
    let n = o.lay.dashes;
    o.push(&"─".repeat(n));
    let n = o.lay.gap;
    o.push(&" ".repeat(n));
    p
}

fn step(o: &Out, r: &mut Rng) -> usize {
    if o.lay.vary_indent {
        r.range(1, 9)
    } else {
        o.lay.indent
    }
}

fn render_nodes(
    o: &mut Out,
    r: &mut Rng,
    nodes: &mut [Node],
    col: usize,
    guides: &mut Vec<usize>,
    cur: &mut Cursor,
) {
    let n = nodes.len();
    for (i, node) in nodes.iter_mut().enumerate() {
        let last = i + 1 == n;
        let b = branch(o, col, guides, last);
        cur.left -= 1;
        match node {
            Node::Cond(c) => {
                let ws: Vec<&str> =
                    std::iter::once(c.kw.as_str()).chain(c.words.iter().map(|s| s.as_str())).collect();
                let (f, l) = words(o, r, &ws);
                c.loc = Loc { branch: b, word: f, last: l };
                end_line(o, r, cur.left == 0);
                if !last {
                    guides.push(col);
                }
                let k = col + step(o, r);
                render_nodes(o, r, &mut c.kids, k, guides, cur);
                if !last {
                    guides.pop();
                }
            }
            Node::Act(a) => {
                let ws: Vec<&str> =
                    std::iter::once(a.kw.as_str()).chain(a.words.iter().map(|s| s.as_str())).collect();
                let (f, l) = words(o, r, &ws);
                a.loc = Loc { branch: b, word: f, last: l };
                end_line(o, r, cur.left == 0);
                if !last {
                    guides.push(col);
                }
                let st = step(o, r);
                let m = a.descs.len();
                for j in 0..m {
                    let d = a.descs[j].depth;
                    // A description is the last of its level if no later one at
                    // its depth comes before one at a smaller depth.
                    let mut dlast = true;
                    for e in &a.descs[j + 1..] {
                        if e.depth == d {
                            dlast = false;
                            break;
                        }
                        if e.depth < d {
                            break;
                        }
                    }
                    let dcol = col + st * d;
                    let b = branch(o, dcol, guides, dlast);
                    cur.left -= 1;
                    let ws: Vec<String> = a.descs[j].words.clone();
                    let ws: Vec<&str> = ws.iter().map(|s| s.as_str()).collect();
                    let (f, l) = words(o, r, &ws);
                    a.descs[j].delta = dcol - col;
                    a.descs[j].loc = Loc { branch: b, word: f, last: l };
                    end_line(o, r, cur.left == 0);
                }
                if !last {
                    guides.pop();
                }
            }
        }
    }
}

pub fn count_lines(nodes: &[Node]) -> usize {
    nodes
        .iter()
        .map(|n| match n {
            Node::Cond(c) => 1 + count_lines(&c.kids),
            Node::Act(a) => 1 + a.descs.len(),
        })
        .sum()
}

/// Renders a spec, recording locations and description indentation in it.
pub fn render(s: &mut Spec, lay: &Layout, r: &mut Rng) -> String {
    let mut o = Out { s: String::new(), pos: Pos { off: 0, line: 1, col: 1 }, lay };
    for _ in 0..lay.leading_blank {
        o.nl();
    }
    let n = s.trees.len();
    for (i, t) in s.trees.iter_mut().enumerate() {
        if i > 0 {
            for _ in 0..lay.sep_blank {
                o.nl();
            }
            if r.pct(lay.sep_comment) {
                // A block of its own, or right above the root.
                for _ in 0..r.range(1, 3) {
                    let c = comment(r);
                    o.push(&c);
                    o.nl();
                }
                if r.pct(50) {
                    o.nl();
                }
            }
        } else if r.pct(lay.sep_comment) {
            let c = comment(r);
            o.push(&c);
            o.nl();
            if r.pct(40) {
                o.nl();
            }
        }
        let root = t.root();
        let (f, l) = words(&mut o, r, &[&root]);
        t.loc = Loc { branch: f, word: f, last: l };
        let mut cur = Cursor { left: count_lines(&t.items) };
        end_line(&mut o, r, cur.left == 0);
        let mut guides = vec![];
        render_nodes(&mut o, r, &mut t.items, lay.base, &mut guides, &mut cur);
        if i + 1 < n {
            o.nl();
        }
    }
    if lay.final_newline {
        o.nl();
        for _ in 0..lay.trailing_blank {
            o.nl();
        }
    }
    o.s
}

/// All conditions of a forest in preorder.
pub fn each_cond<'a>(nodes: &'a [Node], f: &mut dyn FnMut(&'a Cond)) {
    for n in nodes {
        if let Node::Cond(c) = n {
            f(c);
            each_cond(&c.kids, f);
        }
    }
}

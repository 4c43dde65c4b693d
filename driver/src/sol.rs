//! An independent Solidity lexer and structural parser for what the tool
//! writes. Nothing here is shared with the tool under test.
use crate::model::{Fun, Mem, Scaf};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    Ident,
    Num,
    Str,
    Punct,
    Line,
    Block,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub k: K,
    pub s: String,
    pub start: usize,
    pub end: usize,
    pub line: usize,
}

impl Tok {
    pub fn is_comment(&self) -> bool {
        matches!(self.k, K::Line | K::Block)
    }
    /// Whitespace-insensitive text of a comment.
    pub fn comment_text(&self) -> String {
        let t = self.s.trim_end().trim_start_matches('/').trim_start_matches('*');
        let t = t.trim_end_matches('/').trim_end_matches('*');
        t.split_whitespace().filter(|w| *w != "*").collect::<Vec<_>>().join(" ")
    }
}

fn ident_start(c: char) -> bool {
    c == '_' || c == '$' || c.is_alphabetic()
}

pub fn lex(text: &str) -> Result<Vec<Tok>, String> {
    let b: Vec<(usize, char)> = text.char_indices().collect();
    let n = b.len();
    let at = |i: usize| if i < n { b[i].1 } else { '\0' };
    let off = |i: usize| if i < n { b[i].0 } else { text.len() };
    let mut out = vec![];
    let mut i = 0;
    let mut line = 1;
    while i < n {
        let c = at(i);
        if c == '\n' {
            line += 1;
            i += 1;
            continue;
        }
        if c.is_whitespace() {
            i += 1;
            continue;
        }
        let start = i;
        let sline = line;
        let k;
        if c == '/' && at(i + 1) == '/' {
            while i < n && at(i) != '\n' {
                i += 1;
            }
            k = K::Line;
        } else if c == '/' && at(i + 1) == '*' {
            i += 2;
            loop {
                if i >= n {
                    return Err(format!("unterminated comment at line {sline}"));
                }
                if at(i) == '*' && at(i + 1) == '/' {
                    i += 2;
                    break;
                }
                if at(i) == '\n' {
                    line += 1;
                }
                i += 1;
            }
            k = K::Block;
        } else if c == '"' || c == '\'' {
            i += 1;
            loop {
                if i >= n || at(i) == '\n' {
                    return Err(format!("unterminated string at line {sline}"));
                }
                if at(i) == '\\' {
                    i += 2;
                    continue;
                }
                if at(i) == c {
                    i += 1;
                    break;
                }
                i += 1;
            }
            k = K::Str;
        } else if ident_start(c) {
            while i < n && (ident_start(at(i)) || at(i).is_alphanumeric()) {
                i += 1;
            }
            k = K::Ident;
        } else if c.is_ascii_digit() {
            while i < n && (at(i).is_ascii_alphanumeric() || at(i) == '_' || at(i) == '.') {
                i += 1;
            }
            k = K::Num;
        } else if c.is_ascii_punctuation() {
            i += 1;
            k = K::Punct;
        } else {
            return Err(format!("unexpected character {c:?} at line {sline}"));
        }
        out.push(Tok { k, s: text[off(start)..off(i)].to_string(), start: off(start), end: off(i), line: sline });
    }
    Ok(out)
}

/// Solidity keywords and reserved words, none of which can be a name.
pub const RESERVED: &[&str] = &[
    "abstract", "address", "after", "alias", "anonymous", "apply", "as", "assembly", "auto", "bool", "break",
    "byte", "bytes", "case", "catch", "constant", "constructor", "continue", "contract", "copyof", "default",
    "define", "delete", "do", "else", "emit", "enum", "event", "external", "false", "final", "fixed", "for",
    "function", "hex", "if", "immutable", "implements", "import", "in", "indexed", "inline", "int", "interface",
    "internal", "is", "let", "library", "macro", "mapping", "match", "memory", "modifier", "mutable", "new", "null",
    "of", "override", "partial", "payable", "pragma", "private", "promise", "public", "pure", "reference",
    "relocatable", "return", "returns", "sealed", "sizeof", "static", "storage", "string", "struct", "super",
    "supports", "switch", "this", "throw", "true", "try", "type", "typedef", "typeof", "ufixed", "uint",
    "unchecked", "unicode", "using", "var", "view", "virtual", "while",
];

pub fn legal_name(s: &str) -> bool {
    let mut it = s.chars();
    let Some(c) = it.next() else { return false };
    (c == '_' || c == '$' || c.is_ascii_alphabetic())
        && it.all(|c| c == '_' || c == '$' || c.is_ascii_alphanumeric())
        && !RESERVED.contains(&s)
}

/// Strict parser of a scaffolded file: everything it does not expect is an
/// error. Returns the file and the text between comment and code checks.
pub fn parse_scaffold(text: &str) -> Result<Scaf, String> {
    let toks = lex(text)?;
    let mut i = 0;
    let err = |i: usize, what: &str| -> String {
        match toks.get(i) {
            Some(t) => format!("expected {what}, found `{}` at line {}", t.s, t.line),
            None => format!("expected {what}, found the end of the file"),
        }
    };
    macro_rules! eat {
        ($s:expr) => {{
            match toks.get(i) {
                Some(t) if t.s == $s && !t.is_comment() => i += 1,
                _ => return Err(err(i, &format!("`{}`", $s))),
            }
        }};
    }
    macro_rules! name {
        () => {{
            match toks.get(i) {
                Some(t) if t.k == K::Ident => {
                    i += 1;
                    t.s.clone()
                }
                _ => return Err(err(i, "a name")),
            }
        }};
    }
    match toks.first() {
        Some(t) if t.s == "// SPDX-License-Identifier: UNLICENSED" && t.line == 1 => i += 1,
        _ => return Err(err(0, "the license line")),
    }
    eat!("pragma");
    eat!("solidity");
    let from = toks.get(i).map(|t| t.start).unwrap_or(0);
    while toks.get(i).is_some_and(|t| t.s != ";") {
        if toks[i].is_comment() {
            return Err(err(i, "no comment in the pragma"));
        }
        i += 1;
    }
    let pragma = toks.get(i).map(|t| text[from..t.start].trim().to_string()).unwrap_or_default();
    eat!(";");
    let mut import = false;
    if toks.get(i).is_some_and(|t| t.s == "import") {
        i += 1;
        eat!("{");
        eat!("Test");
        eat!("}");
        eat!("from");
        eat!("\"forge-std/Test.sol\"");
        eat!(";");
        import = true;
    }
    eat!("contract");
    let contract = name!();
    let mut is_test = false;
    if toks.get(i).is_some_and(|t| t.s == "is") {
        i += 1;
        eat!("Test");
        is_test = true;
    }
    eat!("{");
    let mut members = vec![];
    loop {
        let Some(t) = toks.get(i) else { return Err(err(i, "`}`")) };
        let line = t.line;
        match t.s.as_str() {
            "}" => {
                i += 1;
                break;
            }
            "modifier" => {
                i += 1;
                let name = name!();
                eat!("(");
                eat!(")");
                eat!("{");
                eat!("_");
                eat!(";");
                eat!("}");
                members.push(Mem::Mod { name, line });
            }
            "function" => {
                i += 1;
                let name = name!();
                eat!("(");
                eat!(")");
                eat!("external");
                let mut mods = vec![];
                while toks.get(i).is_some_and(|t| t.k == K::Ident) {
                    mods.push(toks[i].s.clone());
                    i += 1;
                }
                eat!("{");
                let mut comments = vec![];
                while toks.get(i).is_some_and(|t| t.k == K::Line) {
                    let s = &toks[i].s;
                    let Some(c) = s.strip_prefix("// ") else {
                        return Err(err(i, "a comment starting with `// `"));
                    };
                    comments.push(c.trim_end().to_string());
                    i += 1;
                }
                let mut skip = false;
                if toks.get(i).is_some_and(|t| t.s == "vm") {
                    i += 1;
                    eat!(".");
                    eat!("skip");
                    eat!("(");
                    eat!("true");
                    eat!(")");
                    eat!(";");
                    skip = true;
                }
                eat!("}");
                members.push(Mem::Fun(Fun { name, mods, comments, skip, line }));
            }
            _ => return Err(err(i, "a modifier, a function or `}`")),
        }
    }
    if i < toks.len() {
        return Err(err(i, "the end of the file"));
    }
    Ok(Scaf { pragma, import, contract, is_test, members })
}

/// A part of a contract or of a file, in a general Solidity file.
#[derive(Clone, Debug)]
pub struct Part {
    /// `function`, `modifier`, `constructor`, `contract`, `struct`, ... or
    /// `other`.
    pub kind: String,
    pub name: String,
    /// Tokens (without comments) up to the body, or the whole part.
    pub head: Vec<String>,
    /// Tokens of the body between the braces, comments included and marked.
    pub body: Option<Vec<String>>,
    pub parts: Vec<Part>,
    /// Comments between the parts (contracts only).
    pub loose: Vec<String>,
    pub start: usize,
    pub end: usize,
    pub line: usize,
}

#[derive(Clone, Debug)]
pub struct File {
    pub parts: Vec<Part>,
    pub loose: Vec<String>,
}

fn close_of(toks: &[Tok], open: usize) -> Result<usize, String> {
    let mut depth = 0i64;
    for (j, t) in toks.iter().enumerate().skip(open) {
        if t.is_comment() || t.k == K::Str {
            continue;
        }
        match t.s.as_str() {
            "{" | "(" | "[" => depth += 1,
            "}" | ")" | "]" => {
                depth -= 1;
                if depth == 0 {
                    return Ok(j);
                }
            }
            _ => {}
        }
    }
    Err(format!("unbalanced `{}` at line {}", toks[open].s, toks[open].line))
}

fn norm(t: &Tok) -> String {
    if t.is_comment() {
        format!("/*{}*/", t.comment_text())
    } else if t.k == K::Str {
        format!("\"{}\"", &t.s[1..t.s.len() - 1])
    } else {
        t.s.clone()
    }
}

fn parse_parts(toks: &[Tok], mut i: usize, end: usize, top: bool) -> Result<(Vec<Part>, Vec<String>), String> {
    let mut parts = vec![];
    let mut loose = vec![];
    while i < end {
        let t = &toks[i];
        if t.is_comment() {
            loose.push(t.comment_text());
            i += 1;
            continue;
        }
        if t.s == ";" {
            i += 1;
            continue;
        }
        let start = i;
        let first = t.s.as_str();
        let mut kind = match first {
            "function" | "modifier" | "constructor" | "receive" | "fallback" | "struct" | "enum" | "event"
            | "error" | "using" | "type" | "pragma" | "import" | "contract" | "interface" | "library" => {
                first.to_string()
            }
            "abstract" => "contract".to_string(),
            _ => "other".to_string(),
        };
        // `error`, `receive` and `fallback` may start other things.
        let next_is = |s: &str| toks[start + 1..end].iter().find(|t| !t.is_comment()).is_some_and(|t| t.s == s);
        if (first == "receive" || first == "fallback") && !next_is("(") {
            kind = "other".into();
        }
        let mut head = vec![];
        let mut name = String::new();
        let mut j = i;
        let mut body = None;
        let mut sub = vec![];
        let mut inner = vec![];
        let mut seen_name = false;
        loop {
            if j >= end {
                return Err(format!("unfinished part at line {}", t.line));
            }
            let u = &toks[j];
            if u.is_comment() {
                // Comments in a header.
                inner.push(u.comment_text());
                j += 1;
                continue;
            }
            if u.s == ";" {
                j += 1;
                break;
            }
            if u.s == "(" || u.s == "[" || (u.s == "{" && matches!(kind.as_str(), "import" | "using" | "other" | "pragma")) {
                let c = close_of(toks, j)?;
                for v in &toks[j..=c] {
                    if v.is_comment() {
                        inner.push(v.comment_text());
                    } else {
                        head.push(norm(v));
                    }
                }
                j = c + 1;
                continue;
            }
            if u.s == "{" {
                let c = close_of(toks, j)?;
                if matches!(kind.as_str(), "contract" | "interface" | "library") {
                    let (p, l) = parse_parts(toks, j + 1, c, false)?;
                    sub = p;
                    inner.extend(l);
                } else {
                    body = Some(toks[j + 1..c].iter().map(norm).collect());
                }
                j = c + 1;
                break;
            }
            if u.s == "}" || u.s == ")" || u.s == "]" {
                return Err(format!("unexpected `{}` at line {}", u.s, u.line));
            }
            if u.k == K::Ident && j > start && !seen_name && u.s != "contract" {
                name = u.s.clone();
                seen_name = true;
            }
            if kind == "other" && u.k == K::Ident {
                name = u.s.clone();
            }
            head.push(norm(u));
            j += 1;
        }
        if kind == "constructor" || kind == "receive" || kind == "fallback" {
            name = String::new();
        }
        let _ = top;
        parts.push(Part {
            kind,
            name,
            head,
            body,
            parts: sub,
            loose: inner,
            start: toks[start].start,
            end: toks[j - 1].end,
            line: t.line,
        });
        i = j;
    }
    Ok((parts, loose))
}

pub fn parse_file(text: &str) -> Result<File, String> {
    let toks = lex(text)?;
    let n = toks.len();
    let (parts, loose) = parse_parts(&toks, 0, n, true)?;
    Ok(File { parts, loose })
}

impl File {
    pub fn first_contract(&self) -> Option<&Part> {
        self.parts.iter().find(|p| matches!(p.kind.as_str(), "contract" | "interface" | "library"))
    }
}

//! Prints what the public parse functions of the syntax library make of files.
//!
//! One block per file: `F <path>`, then `E` (rejected), `P` (panicked) or one
//! line per node: `<depth> <kind> <offset> <line> <column> <offset> <line>
//! <column> <text in hex>`. Texts with one tree get a last line `1 <same>`,
//! telling whether `parse_one` says the same.
use bulloak_syntax::{parse, parse_one, Ast};
use std::fmt::Write;

fn hex(s: &str) -> String {
    s.bytes().map(|b| format!("{b:02x}")).collect::<String>() + "."
}

fn node(o: &mut String, depth: usize, a: &Ast) {
    let (kind, text, kids): (&str, &str, &[Ast]) = match a {
        Ast::Root(x) => ("R", &x.contract_name, &x.children),
        Ast::Condition(x) => ("C", &x.title, &x.children),
        Ast::Action(x) => ("A", &x.title, &x.children),
        Ast::ActionDescription(x) => ("D", &x.text, &[]),
    };
    let s = a.span();
    writeln!(
        o,
        "{depth} {kind} {} {} {} {} {} {} {}",
        s.start.offset, s.start.line, s.start.column, s.end.offset, s.end.line, s.end.column, hex(text)
    )
    .unwrap();
    for k in kids {
        node(o, depth + 1, k);
    }
}

fn show(asts: &[Ast]) -> String {
    let mut o = String::new();
    for a in asts {
        node(&mut o, 0, a);
    }
    o
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut o = String::new();
    for f in std::env::args().skip(1) {
        writeln!(o, "F {f}").unwrap();
        let Ok(text) = std::fs::read_to_string(&f) else {
            o.push_str("E\n");
            continue;
        };
        let r = std::panic::catch_unwind(|| parse(&text).map(|a| (a.len(), show(&a))).ok());
        match r {
            Ok(Some((n, s))) => {
                o.push_str(&s);
                if n == 1 {
                    let one = std::panic::catch_unwind(|| parse_one(&text).map(|a| show(&[a])).ok());
                    let same = matches!(one, Ok(Some(t)) if t == s);
                    writeln!(o, "1 {same}").unwrap();
                }
            }
            Ok(None) => o.push_str("E\n"),
            Err(_) => o.push_str("P\n"),
        }
    }
    print!("{o}");
}

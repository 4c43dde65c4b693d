//! Solidity files as users have them: what was scaffolded, plus edits.
use crate::rng::Rng;
use crate::sol;

#[derive(Clone, Debug)]
pub struct UPart {
    /// Comments above the part.
    pub pre: String,
    pub text: String,
    /// `function` or `modifier` and the name, for those.
    pub is_mod: bool,
    pub name: Option<String>,
}

#[derive(Clone, Debug)]
pub struct UContract {
    /// `contract`, `abstract contract`, `interface`, `library`.
    pub kind: String,
    pub name: String,
    /// What follows the name up to the brace.
    pub tail: String,
    pub parts: Vec<UPart>,
    /// Comments before the closing brace.
    pub end: String,
}

#[derive(Clone, Debug)]
pub struct UFile {
    pub top: Vec<String>,
    pub contract: Option<UContract>,
    pub after: Vec<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Where {
    pub contract: usize,
    pub parts: Vec<usize>,
}

/// How a file is laid out.
#[derive(Clone, Debug)]
pub struct Style {
    pub blank: usize,
    pub indent: usize,
    pub brace_own_line: bool,
    pub crlf: bool,
    pub tight: bool,
    /// Several declarations in a line.
    pub flat: bool,
    /// Whether the file ends without a newline (0), with one or with many.
    pub end: usize,
    /// What comes after the contract starts on its last line.
    pub joined: bool,
}

impl Style {
    pub fn plain() -> Style {
        Style { blank: 1, indent: 4, brace_own_line: false, crlf: false, tight: false, flat: false, end: 1, joined: false }
    }
    pub fn random(r: &mut Rng) -> Style {
        if r.pct(40) {
            return Style::plain();
        }
        Style {
            blank: *r.pick(&[0, 1, 1, 2, 4]),
            indent: *r.pick(&[0, 2, 4, 4, 8]),
            brace_own_line: r.pct(20),
            crlf: r.pct(10),
            tight: r.pct(10),
            flat: r.pct(6),
            end: *r.pick(&[0, 0, 1, 1, 1, 1, 2, 5]),
            joined: r.pct(20),
        }
    }
}

/// The structure of a scaffolded file.
pub fn from_scaffold(text: &str) -> Result<UFile, String> {
    let f = sol::parse_file(text)?;
    let Some(c) = f.first_contract() else { return Err("no contract".into()) };
    let parts = c
        .parts
        .iter()
        .map(|p| UPart {
            pre: String::new(),
            text: text[p.start..p.end].to_string(),
            is_mod: p.kind == "modifier",
            name: if p.kind == "modifier" || p.kind == "function" { Some(p.name.clone()) } else { None },
        })
        .collect();
    let head = &text[c.start..];
    let open = head.find('{').ok_or("no body")?;
    let head = head[..open].trim();
    let tail = head.split_once(&c.name).map(|x| x.1.to_string()).unwrap_or_default();
    Ok(UFile {
        top: vec![text[..c.start].trim_end().to_string()],
        contract: Some(UContract {
            kind: c.kind.clone(),
            name: c.name.clone(),
            tail: tail.trim_end().to_string(),
            parts,
            end: String::new(),
        }),
        after: vec![],
    })
}

pub fn render(f: &UFile, st: &Style) -> (String, Where) {
    let mut o = String::new();
    let mut w = Where::default();
    for t in &f.top {
        if !t.is_empty() {
            o.push_str(t);
            o.push('\n');
            o.push_str(&"\n".repeat(st.blank));
        }
    }
    if let Some(c) = &f.contract {
        w.contract = line_of(&o);
        render_contract(&mut o, c, st, &mut w.parts);
        o.push(if st.joined && !f.after.is_empty() { ' ' } else { '\n' });
    }
    for (i, t) in f.after.iter().enumerate() {
        if i > 0 || !st.joined {
            o.push_str(&"\n".repeat(st.blank));
        }
        o.push_str(t);
        o.push('\n');
    }
    if st.end == 0 {
        o.pop();
    }
    for _ in 1..st.end {
        o.push('\n');
    }
    if st.crlf {
        o = o.replace('\n', "\r\n");
    }
    (o, w)
}

fn line_of(o: &str) -> usize {
    o.bytes().filter(|&b| b == b'\n').count() + 1
}

fn indent(t: &str, n: usize, from: usize) -> String {
    // Parts were written with an indentation of four.
    let mut out = String::new();
    for (i, l) in t.lines().enumerate() {
        if i > 0 {
            out.push('\n');
        }
        let strip = l.len() - l.trim_start_matches(' ').len();
        let strip = if i == 0 { strip } else { strip.min(from) };
        if !l[strip..].is_empty() {
            out.push_str(&" ".repeat(n));
        }
        out.push_str(&l[strip..]);
    }
    out
}

/// A recorded finding: comments before the next parenthesis after a modifier
/// that has none in its header move there.
fn with_parentheses(p: &UPart, next: &[UPart], flat: bool) -> UPart {
    let mut p = p.clone();
    let declared = p.text.strip_prefix("modifier").is_some_and(|t| t.ends_with(';'));
    let Some(open) = (if declared { Some(p.text.len() - 1) } else { body_at(&p.text) }) else { return p };
    let mut rest = p.text[open..].to_string();
    for n in next {
        if rest.contains(')') {
            break;
        }
        rest.push('\n');
        rest.push_str(&n.text);
    }
    // Without any, those of the next contract count.
    let none = !rest.contains(')');
    let first = rest.find(')').unwrap_or(rest.len());
    let plain = !p.text[..open].contains(['(', '/', '"']);
    if p.text.starts_with("modifier") && plain && (flat || none || rest[..first].contains("//") || rest[..first].contains("/*")) {
        let head = p.text[..open].trim_end();
        let name = head.split_whitespace().nth(1).map_or(head.len(), |n| n.as_ptr() as usize - head.as_ptr() as usize + n.len());
        p.text.insert_str(name, "()");
    }
    p
}

pub fn render_contract(o: &mut String, c: &UContract, st: &Style, lines: &mut Vec<usize>) {
    o.push_str(&format!("{} {}{}", c.kind, c.name, c.tail));
    o.push_str(if st.brace_own_line { "\n{\n" } else { " {\n" });
    for (i, p) in c.parts.iter().enumerate() {
        let p = &with_parentheses(p, &c.parts[i + 1..], st.flat);
        if i > 0 && !st.flat {
            o.push_str(&"\n".repeat(st.blank));
        }
        if !p.pre.is_empty() {
            o.push_str(&indent(&p.pre, st.indent, 4));
            o.push('\n');
        }
        lines.push(line_of(o));
        let mut end = '\n';
        if (st.tight || st.flat) && !p.text.contains("//") && !p.text.contains("/*") && !p.text.contains('"') {
            let t = p.text.split_whitespace().collect::<Vec<_>>().join(" ");
            o.push_str(&t);
            // A comment after a modifier without parentheses is a recorded finding.
            if st.flat && !(t.starts_with("modifier") && !t.split('{').next().unwrap_or("").contains('(')) {
                end = ' ';
            }
        } else {
            o.push_str(&indent(&p.text, st.indent, 4));
        }
        o.push(end);
    }
    if !c.end.is_empty() {
        o.push_str(&indent(&c.end, st.indent, 4));
        o.push('\n');
    }
    o.push('}');
}

/// Fresh markers make every piece of user code recognisable.
pub struct Marks(pub usize);
impl Marks {
    pub fn next(&mut self) -> usize {
        self.0 += 1;
        self.0
    }
}

pub fn comment_text(r: &mut Rng, m: &mut Marks) -> String {
    let t = *r.pick(&[
        "note", "TODO: check this {", "}", "function foo() external {}", "contract Other { }", "é → ∞ 日本",
        "\"quoted\" text", "it's fine", "modifier m() { _; }", "/ slashes //", "a * b", "https://x.y/z", "emoji 😀",
        "// nested", "tab\there", "two  spaces", "a\u{a0}b\u{200b}c", "a comment that is longer than a line may be: Lorem ipsum dolor sit amet, consetetur sadipscing elitr, sed diam nonumy", "import \"x\";", "vm.skip(true);", "{{{", "'", "\"",
    ]);
    format!("{t} c{}", m.next())
}

/// A comment on lines of its own.
pub fn comment(r: &mut Rng, m: &mut Marks) -> String {
    let t = comment_text(r, m);
    if r.pct(6) {
        // A ruler, which may occur again and again.
        let t = *r.pick(&["//", "// ---", "// ===== helpers =====", "/* * * */", "// ---\n    // ---", "/// ---\n    /// ---", "// x\n    //\n    // x"]);
        return t.to_string();
    }
    match r.below(4) {
        0 => format!("/* {t} */"),
        1 => format!("/// {t}"),
        _ => format!("// {t}"),
    }
}

/// Statements, each on lines of its own, indented by eight.
pub fn statements(r: &mut Rng, m: &mut Marks) -> String {
    let mut o = vec![];
    // Lines that start anywhere.
    let messy = r.pct(15);
    for _ in 0..r.range(1, 4) {
        let n = m.next();
        let s = match if messy && r.pct(40) { r.range(12, 14) } else { r.below(43) } {
            0 => format!("uint256 v{n} = {};", r.below(1000)),
            1 => format!("string memory s{n} = \"}} {{ // not a comment /* {n}\";"),
            2 => format!("string memory s{n} = 'it{n} \"x\"';"),
            3 => format!("if (a{n} > 0) {{\n            b{n} = 1;\n        }} else {{\n            b{n} = 2;\n        }}"),
            4 => format!("for (uint256 i{n} = 0; i{n} < 10; i{n}++) {{\n            f{n}(i{n});\n        }}"),
            5 => format!("vm.expectRevert(abi.encodeWithSelector(E{n}.selector, {n}));"),
            6 => format!("emit Ev{n}(address(this), {n});"),
            7 => format!("x{n} = y{n} ? 1 : 2;"),
            8 => format!("(uint256 a{n}, bool b{n}) = f{n}();"),
            9 => format!("unchecked {{\n            c{n} += 1;\n        }}"),
            10 => format!("assembly {{\n            let x{n} := 1\n            mstore(0x40, x{n})\n        }}"),
            11 => format!("target{n}.call{{value: 1 ether, gas: {n}}}(\"\");"),
            12 => format!("// {}", comment_text(r, m)),
            13 => format!("/* {} */", comment_text(r, m)),
            14 => format!("g{n}({n}); // {}", comment_text(r, m)),
            15 => format!("bytes memory h{n} = hex\"00ff{:02x}\";", n % 256),
            16 => format!("string memory u{n} = unicode\"é→{n} }}\";"),
            17 => format!("try t{n}.f() {{\n            ok{n}();\n        }} catch {{\n            ko{n}();\n        }}"),
            18 => format!("while (w{n}()) {{\n            w{n}x();\n            break;\n        }}"),
            19 => format!("assertEq(f{n}(1), \"}}\", \"it should {n}\");"),
            20 => format!("return{};", if r.pct(50) { format!(" r{n}") } else { String::new() }),
            21 => format!("revert E{n}({{code: {n}, who: msg.sender}});"),
            22 => format!("revert(\"no {n}\");"),
            23 => format!("delete d{n}[{n}];"),
            24 => format!("St{n} memory st{n} = St{n}({{a: 1, b: address(0)}});"),
            25 => format!("uint256[] memory ar{n} = new uint256[]({n});"),
            26 => format!("do {{\n            i{n}--;\n        }} while (i{n} > 0);"),
            27 => format!("try new C{n}() returns (C{n} c) {{\n            c.ok();\n        }} catch Error(string memory reason) {{\n            log{n}(reason);\n        }} catch (bytes memory) {{\n            ko{n}();\n        }}"),
            28 => format!("assembly (\"memory-safe\") {{\n            if iszero(x{n}) {{ revert(0, 0) }}\n            for {{ let i := 0 }} lt(i, {n}) {{ i := add(i, 1) }} {{ pop(i) }}\n        }}"),
            29 => format!("{{\n            uint256 scoped{n} = 1; // {}\n            use{n}(scoped{n});\n        }}", comment_text(r, m)),
            30 => format!("bool q{n} = a{n} && !b{n} || (c{n} != d{n} && e{n} <= 10 ** {n});"),
            31 => format!("x{n} = (a{n} << 2) | (b{n} >> 3) ^ ~c{n} & 0xff % {n};"),
            32 => format!("(, uint256 second{n},) = f{n}();"),
            33 => format!("vm.prank({{msgSender: users.alice{n}, txOrigin: users.bob{n}}});"),
            34 => format!("foo{n}.bar(1).baz(\"(\").qux{{value: {n}}}(a, b, c).quux(abi.encodeCall(IFoo.foo, (1, 2)), keccak256(\"it should\"), type(uint256).max);"),
            35 => format!("/**\n         * {}\n         * more {n}\n         */", comment_text(r, m).replace("*/", "")),
            36 => format!("function (uint256) external returns (bool) cb{n} = this.f{n};"),
            37 => format!("emit Ev{n}({{a: /* {n} */ 1}});"),
            38 => format!("if (a{n}) {{\n            // {}\n        }}", comment_text(r, m)),
            39 => format!("int256 neg{n} = -{n} + int256(uint256(1e{}));", n % 17 + 1),
            40 => format!("string memory tab{n} = \"a\tb\" \"  two  \" \"{n}\";"),
            41 => format!("log{n}(\"% {{}} \\\\ \\n \\u00e9 \\x41 \\\"\", 'it\\'s', hex'00' hex'ff', unicode'é→😀');"),
            42 => format!("uint256 big{n} = 115_792_089_237 ether + 0xFFff_0{n} gwei - 1 days;"),
            _ => format!("while (w{n}()) {{\n            w{n}x();\n            continue;\n        }}"),
        };
        let at = if messy { *r.pick(&[0, 2, 4, 6, 8, 8, 10, 12]) } else { 8 };
        let s = format!("{}{s}", " ".repeat(at));
        // The same line again.
        for _ in 0..if r.pct(6) { r.range(1, 2) } else { 0 } {
            o.push(s.clone());
        }
        o.push(s);
    }
    o.join("\n")
}

fn body(r: &mut Rng, m: &mut Marks) -> String {
    if r.pct(15) {
        "{}".into()
    } else {
        format!("{{\n{}\n    }}", statements(r, m))
    }
}

/// A declaration that is not part of the spec. `names` are names that occur in
/// the spec, which the declaration may resemble.
pub fn other_part(r: &mut Rng, m: &mut Marks, names: &[String]) -> UPart {
    let n = m.next();
    let like = if names.is_empty() { "foo".to_string() } else { r.pick(names).clone() };
    let mut name = None;
    let mut is_mod = false;
    let text = match r.below(30) {
        22 => format!("using {{f{n}, g{n} as +}} for T{n};"),
        23 => format!("event An{n}(bytes32 indexed a) anonymous;"),
        24 => format!("mapping(address owner => mapping(uint256 id => bool ok)) public named{n};"),
        25 => {
            is_mod = true;
            name = Some(format!("mod{n}"));
            format!("modifier mod{n}(uint256 a, address b) virtual {{\n        if (a > 0) {{\n            _;\n        }}\n        y{n}(b);\n    }}")
        }
        26 => {
            is_mod = true;
            name = Some(format!("mod{n}"));
            format!("modifier mod{n} {{\n        _;\n    }}")
        }
        27 => {
            // A test that is nobody's.
            let l = format!("test_Nobodys{n}Zq");
            name = Some(l.clone());
            format!("function {l}() external mod{n}({n}) {}", body(r, m))
        }
        28 => {
            let l = format!("testFuzz_Nobodys{n}Zq");
            name = Some(l.clone());
            format!("function {l}(uint256 a, bytes32[] calldata b) external {}", body(r, m))
        }
        29 => format!("uint256[3] private arr{n} = [uint256(1), 2, {n}];"),
        0 => format!("uint256 internal v{n} = {n};"),
        1 => format!("mapping(address => mapping(uint256 => bool)) private m{n};"),
        2 => format!("string constant S{n} = \"function {like}() external {{ // }}\";"),
        3 => format!("constructor() {}", body(r, m)),
        4 => format!("event Ev{n}(address indexed who, uint256 amount);"),
        5 => format!("error Er{n}(uint256 code);"),
        6 => format!("struct St{n} {{\n        uint256 a;\n        address b;\n    }}"),
        7 => format!("enum En{n} {{\n        A,\n        B\n    }}"),
        8 => format!("using Lib{n} for uint256;"),
        9 => format!("receive() external payable {}", body(r, m)),
        10 => format!("fallback() external payable {}", body(r, m)),
        11 => {
            is_mod = true;
            name = Some(format!("mod{n}"));
            format!("modifier mod{n}() {{\n        _;\n        x{n}();\n    }}")
        }
        12 => {
            // A name that contains the one of a test.
            let l = format!("{like}_{n}");
            name = Some(l.clone());
            format!("function {l}() external {}", body(r, m))
        }
        13 => {
            let l = format!("_{like}{n}");
            name = Some(l.clone());
            format!("function {l}(uint256 a, string memory b) internal pure returns (uint256) {}", body(r, m))
        }
        14 => {
            let l = format!("setUp{n}");
            name = Some(l.clone());
            format!("function {l}() public virtual override {}", body(r, m))
        }
        15 => {
            let l = format!("call{n}");
            name = Some(l.clone());
            // Mentions a test's code.
            format!("function {l}() internal {{\n        {like}();\n        string memory s = \"function {like}() external {{\";\n    }}")
        }
        16 => {
            let l = format!("abs{n}");
            name = Some(l.clone());
            format!("function {l}(bytes calldata d) external virtual returns (bool);")
        }
        17 => format!("address payable public immutable a{n} = payable(address(0));"),
        18 => format!("type T{n} is uint256;"),
        19 => format!("bytes32 public constant H{n} = keccak256(\"{like}\");"),
        20 => format!("function(uint256) internal returns (bool) fp{n};"),
        _ => {
            let l = format!("helper{n}");
            name = Some(l.clone());
            format!("function {l}() internal {}", body(r, m))
        }
    };
    let pre = if r.pct(30) { comment(r, m) } else { String::new() };
    UPart { pre, text, is_mod, name }
}

/// A declaration outside of contracts, which is no contract.
pub fn top_level(r: &mut Rng, m: &mut Marks) -> String {
    let n = m.next();
    match r.below(13) {
        9 => format!("import \"./n{n}.sol\" as N{n};"),
        10 => format!("import \"./m{n}.sol\" as M{n};"),
        11 => format!("using Lib{n} for uint256 global;"),
        12 => format!("/**\n * {}\n */", comment_text(r, m)),
        0 => format!("import {{A{n} as B{n}}} from \"./a{n}.sol\";"),
        1 => format!("import \"../b{n}.sol\";"),
        2 => format!("error TopErr{n}(uint256 a);"),
        3 => format!("struct Top{n} {{\n    uint256 a;\n    string b;\n}}"),
        4 => format!("uint256 constant K{n} = {n};"),
        5 => format!("function free{n}(uint256 a) pure returns (uint256) {{\n    return a + {n};\n}}"),
        6 => format!("enum TopEnum{n} {{\n    X,\n    Y\n}}"),
        7 => format!("// {}", comment_text(r, m)),
        _ => format!("type TopType{n} is uint128;"),
    }
}

/// Another contract, interface or library.
pub fn other_contract(r: &mut Rng, m: &mut Marks, like: &str, names: &[String]) -> UContract {
    let n = m.next();
    let kind = (*r.pick(&["contract", "contract", "abstract contract", "interface", "library"])).to_string();
    let name = match r.below(4) {
        0 => format!("{like}{n}"),
        1 => format!("I{like}{n}"),
        _ => format!("Other{n}"),
    };
    let tail = if kind.ends_with("contract") {
        match r.below(5) {
            0 => format!(" is {like}, Base{n}"),
            1 => format!(" is Base{n}(1, \"}}\")"),
            _ => String::new(),
        }
    } else {
        String::new()
    };
    let mut parts = vec![];
    for _ in 0..r.below(4) {
        if kind == "interface" {
            let k = m.next();
            parts.push(UPart {
                pre: String::new(),
                text: format!("function if{k}() external;"),
                is_mod: false,
                name: Some(format!("if{k}")),
            });
        } else if !names.is_empty() && r.pct(40) {
            // A test of the spec in the wrong contract.
            let l = r.pick(names).clone();
            parts.push(UPart {
                pre: String::new(),
                text: format!("function {l}() external {}", body(r, m)),
                is_mod: false,
                name: Some(l),
            });
        } else {
            parts.push(other_part(r, m, names));
        }
    }
    UContract { kind, name, tail, parts, end: if r.pct(20) { comment(r, m) } else { String::new() } }
}

pub fn contract_text(c: &UContract) -> String {
    let mut o = String::new();
    let mut v = vec![];
    render_contract(&mut o, c, &Style::plain(), &mut v);
    o
}

/// Where the body of a function or modifier opens.
fn body_at(t: &str) -> Option<usize> {
    let word = t.split(|c: char| !c.is_alphabetic()).next().unwrap_or("");
    if !matches!(word, "function" | "modifier" | "constructor") || !t.ends_with('}') {
        return None;
    }
    let mut quoted = false;
    for (i, c) in t.char_indices() {
        match c {
            '"' => quoted = !quoted,
            '{' if !quoted => return Some(i),
            _ => {}
        }
    }
    None
}

/// Edits of a test or modifier that keep it what it is.
pub fn decorate(p: &mut UPart, r: &mut Rng, m: &mut Marks) {
    let Some(open) = body_at(&p.text) else {
        p.pre = comment(r, m);
        return;
    };
    match r.below(10) {
        8 => {
            // Declared, but not implemented here.
            if !p.text[..open].contains("virtual") {
                let head = p.text[..open].trim_end();
                p.text = match head.find(" returns ") {
                    Some(i) => format!("{} virtual{};", &head[..i], &head[i..]),
                    None => format!("{head} virtual;"),
                };
            }
        }
        9 => {
            let head = &p.text[..open];
            if head.starts_with("function") && !head.contains("returns") {
                let n = m.next();
                let extra = *r.pick(&["returns (uint256)", "returns (bool ok, bytes memory)", "override(A1, B2)", "virtual override"]);
                let named = extra.replace("ok", &format!("ok{n}"));
                p.text = format!("{} {named} {}", head.trim_end(), &p.text[open..]);
            }
        }
        0 | 1 | 2 => {
            // More code in the body.
            let s = statements(r, m);
            let before = p.text[..p.text.len() - 1].trim_end().to_string();
            p.text = format!("{before}\n{s}\n    }}");
        }
        3 => {
            // Code before what is there.
            let s = statements(r, m);
            let rest = &p.text[open + 1..];
            let rest =
                if rest.starts_with('\n') { rest.to_string() } else { format!("\n        {}", rest.trim_start()) };
            p.text = format!("{}{{\n{s}{rest}", &p.text[..open]);
        }
        4 => {
            if p.text[..open].find("()") == p.text.find('(') {
                if let Some(at) = p.text[..open].find("()") {
                    let n = m.next();
                    p.text.replace_range(at..at + 2, &format!("(uint256 p{n}, string memory q{n})"));
                }
            }
        }
        5 => {
            if let Some(at) = p.text[..open].find(" external") {
                let v = *r.pick(&[" public", " external virtual", " external payable", " public view override", " internal", " private", " pure", ""]);
                p.text.replace_range(at..at + 9, v);
            }
        }
        6 => {
            if p.text.starts_with("modifier") {
                if let Some(at) = p.text[..open].find("()") {
                    if r.pct(50) {
                        p.text.replace_range(at..at + 2, "");
                    } else {
                        p.text.replace_range(at..at + 2, "() virtual");
                    }
                }
            } else if !p.text[..open].contains(" returns ") {
                let n = m.next();
                let before = p.text[..open].trim_end().to_string();
                p.text = format!("{before} extra{n}(\"{{\", {n}) {}", &p.text[open..]);
            }
        }
        _ => p.pre = comment(r, m),
    }
}

/// Other white space, and comments, in the header of a function or modifier.
pub fn respace(p: &mut UPart, r: &mut Rng, m: &mut Marks, inside: bool) {
    let Some(open) = body_at(&p.text) else { return };
    let head = p.text[..open].trim_end().to_string();
    if head.contains('"') || head.contains("//") || head.contains("/*") {
        return;
    }
    let mut o = String::new();
    let mut closed = false;
    for c in head.chars() {
        if c == ' ' || c == '(' || c == ')' {
            // Whether a comment may be put here.
            let here = inside || c == ' ' && closed;
            closed |= c == ')';
            let t = match r.below(8) {
                3 | 4 if !here => " ".to_string(),
                0 => "\n".to_string(),
                1 => "\t ".to_string(),
                2 => "\n\n        ".to_string(),
                3 => format!(" /* {} */ ", m.next()),
                4 => format!(" // {}\n", comment_text(r, m)),
                5 if c != ' ' => String::new(),
                _ => " ".to_string(),
            };
            o.push_str(&t);
            if c != ' ' {
                o.push(c);
            }
        } else {
            o.push(c);
        }
    }
    p.text = format!("{o} {}", &p.text[open..]);
}

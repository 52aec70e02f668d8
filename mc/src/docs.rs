//! Finite, index-addressed families of documents.
use crate::engine::{seq_at, seq_count, Dig};
use std::sync::Arc;

#[derive(Clone)]
pub struct Docs {
    pub name: String,
    pub what: String,
    pub size: u64,
    pub at: Arc<dyn Fn(u64) -> String + Send + Sync>,
}
impl Docs {
    pub fn new(name: &str, what: &str, size: u64, at: impl Fn(u64) -> String + Send + Sync + 'static) -> Docs {
        Docs { name: name.into(), what: what.into(), size, at: Arc::new(at) }
    }
    pub fn list(name: &str, what: &str, v: Vec<String>) -> Docs {
        Docs::new(name, what, v.len() as u64, move |i| v[i as usize].clone())
    }
    /// The same documents in other line-end, spelling and layout styles.
    pub fn styled(self, styles: &'static [Style]) -> Docs {
        let n = styles.len() as u64;
        let f = self.at.clone();
        Docs {
            name: self.name,
            what: format!("{} x {} styles {:?}", self.what, n, styles),
            size: self.size * n,
            at: Arc::new(move |i| styles[(i % n) as usize].apply(&f(i / n))),
        }
    }
    pub fn wrapped(self, name: &str, pre: &str, post: &str) -> Docs {
        let f = self.at.clone();
        let (pre, post) = (pre.to_string(), post.to_string());
        Docs {
            name: name.into(),
            what: format!("{} inside {:?} .. {:?}", self.what, pre, post),
            size: self.size,
            at: Arc::new(move |i| format!("{pre}{}{post}", f(i))),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Style {
    Lf,
    Crlf,
    /// Names and strings with non-ASCII (two- and four-byte, one- and two-unit) characters.
    Unicode,
    UnicodeCrlf,
    /// No line end at the end of the document.
    Open,
    /// Blank lines, tabs and comments after every line, leading blank line.
    Airy,
    /// As Airy, with astral characters in the comments and CR LF.
    AiryUnicode,
    /// Every line starts with an astral string-free comment-less prefix: tabs.
    Indented,
}
pub const LF: &[Style] = &[Style::Lf];
pub const PLAIN: &[Style] = &[Style::Lf, Style::Crlf, Style::Open];
pub const ALL: &[Style] = &[Style::Lf, Style::Crlf, Style::Unicode, Style::UnicodeCrlf, Style::Open, Style::Airy, Style::AiryUnicode, Style::Indented];
pub const SOME: &[Style] = &[Style::Lf, Style::UnicodeCrlf, Style::AiryUnicode, Style::Open];
impl Style {
    pub fn apply(self, t: &str) -> String {
        let uni = |t: &str| {
            t.replace("@a", "@é").replace("@g", "@𝒳").replace("%x", "%ß𝒴").replace("!f2", "!ƒ2").replace("\"s\"", "\"sé𝒳\"").replace(" bb", " ƀ𝒷")
        };
        match self {
            Style::Lf => t.to_string(),
            Style::Crlf => t.replace('\n', "\r\n"),
            Style::Unicode => uni(t),
            Style::UnicodeCrlf => uni(t).replace('\n', "\r\n"),
            Style::Open => t.strip_suffix('\n').unwrap_or(t).to_string(),
            Style::Airy => format!("\n{}", t.replace('\n', "\t # c @a %x \"\n\n")),
            Style::AiryUnicode => format!("\r\n{}", uni(t).replace('\n', " # 𝒳é @a\r\n\t\r\n")),
            Style::Indented => t.split_inclusive('\n').map(|l| format!("\t  {l}")).collect(),
        }
    }
}

// ---- character strings ----
pub const CHARS: &[&str] =
    &["@", "%", "!", "a", "1", "0", "x", "\"", "#", ":", "=", " ", "\n", "\r", "é", "𝒳", "-", "{", "_", "\u{2028}"];
pub fn chars(max: u32) -> Docs {
    let k = CHARS.len() as u64;
    Docs::new("chars", &format!("all strings of up to {max} characters over {CHARS:?}"), seq_count(k, 0, max), move |i| {
        seq_at(k, 0, i).into_iter().map(|j| CHARS[j]).collect()
    })
}

// ---- token strings ----
pub const TOP: &[&str] = &[
    "@a", "@f", "%x", "!1", "declare", "define", "void", "int32", "pure", "(", ")", "{", "}", "=", ",", "depends", "on", "0x1", "7",
    "\"s\"", "\n", "# c", "foo", ":", "$",
];
pub const BODY: &[&str] = &[
    "br", "addbr", "switch", "phi", "foo", "int1", "int32", "%c", "a", "b", ",", "cont", "overflow", "default", "label", "=", "[", "]",
    "!1", "0", ":", "\n", "}", "@f",
];
fn join(v: Vec<usize>, a: &[&str]) -> String {
    let mut s = String::new();
    for (n, j) in v.into_iter().enumerate() {
        if n > 0 {
            s.push(' ');
        }
        s.push_str(a[j]);
        if a[j].starts_with('#') {
            s.push('\n');
        }
    }
    s
}
pub fn top_tokens(max: u32) -> Docs {
    let k = TOP.len() as u64;
    Docs::new("top-tokens", &format!("all sequences of up to {max} tokens over {TOP:?}"), seq_count(k, 0, max), move |i| join(seq_at(k, 0, i), TOP))
}
/// Token sequences in the place of an instruction.
pub fn body_tokens(max: u32) -> Docs {
    let k = BODY.len() as u64;
    Docs::new("body-tokens", &format!("all sequences of up to {max} tokens over {BODY:?}"), seq_count(k, 0, max), move |i| join(seq_at(k, 0, i), BODY))
        .wrapped("body-tokens", "define void @f(int1 %c) {\na:\n  ", "\nb:\n  br a\n}\n!1 = 0\n")
}

// ---- lexemes ----
const LEX: &[&str] = &[
    "declare", "define", "exported", "async", "memberfunc", "noreturn", "nosideeffects", "pure", "void", "int1", "int8", "int16", "int32", "int64", "float32", "float64", "data128", "ptr",
    "Declare", "DEFINE", "Pure", "VOID", "Int32", "int", "int128", "float", "double", "bool", "bigint", "data", "defines", "ptr1", "_void", "void_", "void:", "void::a", "a::void", "exporte",
    "0", "00", "01", "10", "9a", "0x", "0x1F", "0X1F", "0xg", "0x1g", "0xDEADbeef", "00x1", "0b1", "1.5", "1e5", "1_0", "-1", "+1", "0x-1",
    "a", "_", "_1", "a1", "a:b", "a::b", "a:", ":a", "a:::", "A", "é", "𝒳y", "a.b", "a-b",
    "@", "@1", "@a", "@:a", "@a:", "@_", "@@", "@-", "%", "%1", "%x", "%:x", "%%", "!", "!1", "!a", "!:a", "!!",
    "\"\"", "\"a\"", "\"#\"", "\"a\nb\"", "\"", "\"\\\"", "'a'", "`", "#", "# c", "#\"", "//", "/* */", ";", "\\", "$", "&", "|", "~", "^", "?", "/", "\t", "\n", "\r\n", "\r", "\u{b}", "\u{a0}", "\u{feff}",
];
/// Up to two lexemes next to each other, with and without a space.
pub fn lexemes() -> Docs {
    let k = LEX.len() as u64;
    Docs::new("lexemes", &format!("all pairs of {k} lexemes and near-lexemes, adjacent and spaced, at the start of the text and in an initialiser"), (k * k + k) * 4, move |i| {
        let mut d = Dig(i);
        let (pre, sep) = (*d.of(&["", "@i = "]), *d.of(&["", " "]));
        let a = *d.of(LEX);
        let j = d.take(LEX.len() + 1);
        format!("{pre}{a}{sep}{}", if j == 0 { "" } else { LEX[j - 1] })
    })
}

// ---- statements ----
pub const FUNCS: &[&str] = &[
    "define void @f() {\n}\n",
    "define int32 @g(int32 %x, int32 %x1) {\n  ret int32 %x !1\n}\n",
    "define void @f1() {\na:\n  br b\nb:\n  br a !2\n}\n",
    "define int32 @f(int32 %x, int1 %c) {\n  br a\na:\n  br int1 %c, b, a1 !1\nb:\n  int32 %x1 = phi [a, int32 %x], [a1, int32 7]\n  ret int32 %x1\na1:\n  br b\n}\n",
    "define int32 @g(int32 %x) {\na:\n  int32 %v1 = saddbr int32 %x, int32 1, cont=b, overflow=ovf !f2\nb:\n  ret int32 %v1\novf:\n  int32 %v2 = call @f(int32 %v1, ptr @a)\n  unreachable\n}\n",
    "define exported void @h(int32 %x) {\nsw:\n  switch int32 %x, default=bb3, int32 0 label=bb1, int32 1 label=bb2, int32 2 label=bb1\nbb1:\nbb2:\n  br bb3 !1\nbb3:\n  ret\n}\n",
    "define void @h() {\n  int32 %x = foo @a, @b\n  int32 %x = bar %x, %y\na:\n  br nowhere\na:\n  br a\n}\n",
];
pub const STMTS: &[&str] = &[
    "@a = 1\n",
    "@a1 = @b, 0x1F, \"s\"\n",
    "@b = \"s\" # c @a\n",
    "@a::b_1 = @a:b !1\n",
    "declare void @f() !1\n",
    "declare exported pure int32 @g(int32 %x, ptr %y) = 0x12 !f2\n",
    "declare void @f1(int32 %1)\n",
    "@f depends on @g, @a1, @f1\n",
    "@g depends on\n",
    "!1 = \"src/m.cpp:3\"\n",
    "!f2 = {\"k\": [1, @a, !1]}\n",
    "!2 = {\"backtrace\": [[\"F\", \"hyper/x.cpp:7\"]]}\n",
    "# only a comment @a %x !1\n",
    "\n",
    "@a = \"two\nlines @a\"\n",
];
/// Lines that are not statements.
pub const BROKEN: &[&str] = &[
    "foo bar\n",
    "@a 1\n",
    "declare @f()\n",
    "declare void f()\n",
    "define void @q(\n",
    "define void @q() {\n",
    "}\n",
    "a:\n",
    "%x = 1\n",
    "$ - ?\n",
    "\"unterminated\n",
    "!1 2\n",
    "= 7\n",
    "declare void @q(int32)\n",
    "declare void @q() = 12\n",
    "@x depends @y\n",
    "é𝒳\r\n",
    "define void @q() {\nfoo: bar\n}\n",
    "define void @q() { ret\n}\n",
    "define void @q() {\nret }\n",
];
pub fn stmts(max: u32) -> Docs {
    let all: Vec<&str> = STMTS.iter().chain(FUNCS).copied().collect();
    let k = all.len() as u64;
    Docs::new("statements", &format!("all sequences of up to {max} of {k} top-level statements"), seq_count(k, 0, max), move |i| {
        seq_at(k, 0, i).into_iter().map(|j| all[j]).collect()
    })
}

// ---- function bodies ----
pub const INSTRS: &[&str] = &[
    "br a",
    "br b !1",
    "br e",
    "br int1 %c, a, b",
    "br int1 %c, b, b !2",
    "br int1 1, e, a",
    "int32 %v = saddbr int32 %x, int32 1, cont=a, overflow=e",
    "int32 %v1 = smulbr int32 %x, int32 %v, cont=b, overflow=b !1",
    "switch int32 %x, default=e,",
    "switch int32 %x, default=a, int32 0 label=b",
    "switch int32 %v1, default=b, int32 0 label=a, int32 1 label=e, int32 2 label=a !1",
    "int32 %p = phi [a, int32 %v], [b, int32 %v1]",
    "int32 %p = phi [e, %x] !2",
    "int32 %v = call @g(int32 %x, ptr @a) !f2",
    "ret int32 %v",
    "call @f(%x, %x1, \"br a\")",
    "foo a, b, e, cont = a",
    "unreachable",
    "br",
    "br a b",
    "phi",
    "switch int32 %x, default=a",
    "xbr int32 %x, cont=a",
    "int32 %x = mov int32 %x",
];
/// Two or three blocks filled with every combination of instructions; a second function uses the
/// same names.
pub fn bodies(slots: u32) -> Docs {
    let k = INSTRS.len() as u64;
    Docs::new(
        "bodies",
        &format!("every choice of {slots} of {k} instructions for the blocks of a function, with and without an unlabelled entry block, next to a function with the same local names"),
        k.pow(slots) * 2,
        move |i| {
            let mut d = Dig(i);
            let entry = d.take(2) == 1;
            let ins: Vec<&str> = (0..slots).map(|_| *d.of(INSTRS)).collect();
            let mut s = String::from("!1 = 0\n!2 = 0\ndeclare int32 @g(int32 %x) !f2\ndefine void @f(int32 %x, int1 %c) {\n");
            let mut it = ins.iter();
            if entry {
                s += &format!("  {}\n", it.next().unwrap());
            }
            s += "a:\n";
            if let Some(i) = it.next() {
                s += &format!("  {i}\n");
            }
            if slots > 2 {
                if let Some(i) = it.next() {
                    s += &format!("  {i}\n");
                }
            }
            s += "b:\n";
            for i in it {
                s += &format!("  {i}\n");
            }
            s += "}\ndefine void @f2(int32 %x) {\na:\n  int32 %v = mov int32 %x !f2\n  br b\nb:\n  br a\n}\n!f2 = 0\n@a = 1\n";
            s
        },
    )
}
/// Every mnemonic (and what resembles one) with every shape of operands.
pub fn mnemonics() -> Docs {
    const W: &[&str] = &[
        "br", "abr", "saddbr", "xxbr", "br1", "bra", "brx", "broadcast", "bbr_", "brbr", "BR", "Br", "aBR", "b", "r", "switch", "switch1", "myswitch", "Switch", "switchbr", "phi", "phi1", "xphi", "Phi", "phibr", "a", "b_", "default", "label", "cont", "overflow", "ret", "call", "depends", "ébr", "br::x", "x::br", "x:br",
    ];
    const OPS: &[&str] = &[
        "", " a", " a !1", " int1 %c, a, b", " int1 %c, b, a !1", " int8 %c, a, b", " int32 %c, cont=a, overflow=b", " int32 %c, int32 1, cont=b, overflow=a !1", " cont=a, overflow=b", " int32 %c, overflow=a, cont=b", " int32 %c, default=a, int32 0 label=b",
        " int32 %c, default=b, int32 0 label=a, int32 1 label=a !1", " [a, int32 %c], [b, 1]", " [a, 1] !1", " [a]", " %c", " a, b", " @f(a)", "= a",
    ];
    Docs::new("mnemonics", &format!("{} mnemonics and near-mnemonics with {} shapes of operands, with and without a result, in a labelled and an unlabelled block", W.len(), OPS.len()), (W.len() * OPS.len() * 4) as u64, move |i| {
        let mut d = Dig(i);
        let (w, o) = (*d.of(W), *d.of(OPS));
        let r = *d.of(&["", "int32 %v = "]);
        let l = *d.of(&["", "e:\n"]);
        format!("define void @f(int1 %c) {{\n{l}  {r}{w}{o}\na:\n  foo %v\nb:\n  ret\n}}\n!1 = 0\n")
    })
}
pub fn pairs() -> Docs {
    let pre = ["", "@a = 1\n!1 = 0\n", "declare void @f() !1\n@f depends on @g\n"];
    let n = FUNCS.len() as u64;
    Docs::new("function-pairs", "every ordered pair of function templates, same and different names, 3 contexts", n * n * 2 * 3, move |i| {
        let mut d = Dig(i);
        let a = *d.of(FUNCS);
        let b = *d.of(FUNCS);
        let same = d.take(2) == 1;
        let p = pre[d.take(3)];
        let b = if same { b.to_string() } else { b.replace("@f", "@ff").replace("@g", "@gg").replace("@h", "@hh") };
        format!("{p}{a}{b}!f2 = @g\n")
    })
}

// ---- neighbourhoods: every small token edit of a valid document ----
pub const SEEDS: &[&str] = &[
    "@a = 1\n",
    "declare pure int32 @g(int32 %x, ptr %y) = 0x12 !1\n",
    "@f depends on @g, @a\n",
    "!1 = \"m.cpp:3\"\n",
    "define void @f(int1 %c) {\n  ret\n}\n",
    "define void @f(int1 %c) {\na:\n  br int1 %c, a, b !1\nb:\n  br a !1\n}\n!1 = 0\n",
    "define void @f(int1 %c) {\na:\n  int32 %v = saddbr int32 %c, int32 1, cont=a, overflow=b !1\nb:\n  ret %v\n}\n",
    "define void @f(int1 %c) {\na:\n  switch int32 %c, default=b, int32 0 label=a, int32 1 label=b !1\nb:\n  ret\n}\n",
    "define void @f(int1 %c) {\na:\n  int32 %v = phi [a, int32 %c], [b, 7] !1\n  br b\nb:\n  br a\n}\n",
];
/// The tokens of a document, as separate strings (line breaks are tokens).
pub fn split_tokens(t: &str) -> Vec<String> {
    let c: Vec<char> = t.chars().collect();
    crate::model::lex(&c).0.into_iter().map(|t| t.t).collect()
}
const EDIT: &[&str] = &["@a", "%c", "!1", "a", "br", "int32", "pure", "7", "0x1", "\"s\"", "=", ",", ":", "(", ")", "{", "}", "[", "]", "<", ">", ";", "*", ".", "\n", "$", "define", "declare", "default", "depends", "on", "cont", "phi"];
/// All documents one token edit (delete, duplicate, replace, insert, swap) away from `t`.
pub fn edits1(t: &[String]) -> Vec<Vec<String>> {
    let mut v = vec![];
    for i in 0..t.len() {
        let mut a = t.to_vec();
        a.remove(i);
        v.push(a);
        let mut a = t.to_vec();
        a.insert(i, t[i].clone());
        v.push(a);
        for e in EDIT {
            let mut a = t.to_vec();
            a[i] = e.to_string();
            v.push(a);
        }
        if i + 1 < t.len() {
            let mut a = t.to_vec();
            a.swap(i, i + 1);
            v.push(a);
        }
    }
    for i in 0..=t.len() {
        for e in EDIT {
            let mut a = t.to_vec();
            a.insert(i, e.to_string());
            v.push(a);
        }
    }
    v
}
pub fn unsplit(t: &[String]) -> String {
    t.join(" ")
}
pub fn neighbours(depth: u32) -> Docs {
    let mut all: Vec<Vec<String>> = vec![];
    for s in SEEDS {
        all.extend(edits1(&split_tokens(s)));
    }
    all.sort();
    all.dedup();
    if depth == 1 {
        let n = all.len() as u64;
        return Docs::new("neighbours", &format!("every single-token edit of {} valid documents", SEEDS.len()), n, move |i| unsplit(&all[i as usize]));
    }
    // Distance two: a deletion or swap after any single edit (the full square would not fit).
    let mut idx: Vec<(u32, u32)> = vec![];
    for (j, d) in all.iter().enumerate() {
        for k in 0..d.len() as u32 * 2 {
            idx.push((j as u32, k));
        }
    }
    let n = idx.len() as u64;
    Docs::new("neighbours2", "every single-token edit followed by every deletion or swap", n, move |i| {
        let (j, k) = idx[i as usize];
        let mut d = all[j as usize].clone();
        let p = (k / 2) as usize;
        if k % 2 == 0 {
            d.remove(p);
        } else if p + 1 < d.len() {
            d.swap(p, p + 1);
        }
        unsplit(&d)
    })
}

// ---- broken lines among good statements ----
pub fn broken_mix() -> Docs {
    let good: Vec<&str> = STMTS.iter().filter(|s| !s.contains("two\n")).chain(FUNCS).copied().collect();
    let (g, b) = (good.len() as u64, BROKEN.len() as u64);
    Docs::new("broken-lines", "every broken line before, between and after every pair of good statements", g * g * b * 3, move |i| {
        let mut d = Dig(i);
        let (x, y, z) = (*d.of(&good), *d.of(&good), *d.of(BROKEN));
        match d.take(3) {
            0 => format!("{z}{x}{y}"),
            1 => format!("{x}{z}{y}"),
            _ => format!("{x}{y}{z}"),
        }
    })
}

// ---- scale: one dimension grows ----
pub fn scale(max: u64) -> Docs {
    const FAM: u64 = 24;
    let mut sizes: Vec<usize> = (1..=max as usize).collect();
    sizes.extend([17, 33, 50, 65, 100, 129, 200, 257].iter().filter(|n| **n as u64 > max));
    let big = *sizes.last().unwrap();
    Docs::new("scale", &format!("{FAM} families of documents in which one dimension grows through 1..={max} and beyond powers of two and ten up to {big}"), FAM * sizes.len() as u64, move |i| {
        let n = sizes[(i / FAM) as usize];
        let r = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>();
        let rj = |s: &str, f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>().join(s);
        match i % FAM {
            0 => format!("define void @f(int32 %x) {{\ns:\n  switch int32 %x, default=s,{}\n}}\n", rj(",", &|k| format!(" int32 {k} label=s"))),
            1 => format!("define void @f(int32 %x) {{\n{}}}\n", r(&|k| format!("b{k}:\n  br b{}\n", (k + 1) % n))),
            2 => r(&|k| format!("define void @f{k}(int32 %x) {{\na:\n  int32 %y = add int32 %x, 1\n  br a\n}}\n")),
            3 => format!("declare void @f({})\ndefine void @g({}) {{\n  foo %x0, %x{}\n}}\n", rj(", ", &|k| format!("int32 %x{k}")), rj(", ", &|k| format!("int32 %x{k}")), n - 1),
            4 => r(&|k| format!("@a{k} = @a{}\n", (k + 1) % n)),
            5 => format!("@{0} = 1\n@b = @{0}\n", "n".repeat(n)),
            6 => format!("@a{0} = 1\n@b = @a{0}\n", "1".repeat(n)),
            7 => format!("@b = {}\n@a = 1\n", "@a ".repeat(n)),
            8 => format!("{}@a = @b\n", "\n".repeat(n)),
            9 => format!("define void @f() {{\nm:\n  {} = phi {}\n  br m\n}}\n", "int32 %p", rj(", ", &|_| "[m, 1]".to_string())),
            10 => format!("{}@a = 1\n", r(&|k| format!("# comment {k} é𝒳 @a\n"))),
            11 => format!("@f depends on {}\n{}", rj(", ", &|k| format!("@d{k}")), r(&|k| format!("declare void @d{k}() !{k}\n!{k} = \"x.cpp:{k}\"\n"))),
            12 => format!("define void @f() {{\na:\n{}}}\n!1 = 0\n", r(&|k| format!("  int32 %v{k} = add int32 %v{}, 1 !1\n", k.saturating_sub(1)))),
            13 => format!("@a = \"{}\"\n@b = @a\n", "é𝒳\n".repeat(n)),
            14 => format!("@b = {}1\n@a = @b\n", "{[(<".repeat(n)),
            15 => format!("{}define void @f() {{\n  ret\n}}\n", "foo bar\n".repeat(n)),
            16 => format!("define void @f(int32 %x) {{\ns:\n  switch int32 %x, default=s,{}\n{}}}\n", rj(",", &|k| format!(" int32 {k} label=b{k}")), r(&|k| format!("b{k}:\n  ret\n"))),
            17 => format!("define void @f() {{\n{}t:\n  ret\n}}\n", r(&|k| format!("b{k}:\n  br t\n"))),
            18 => format!("define void @f() {{\na:\n{}}}\n", r(&|k| format!("  int32 %v{k} = saddbr 1, cont=a, overflow=b{k}\n"))),
            19 => format!("{}@b = @a\n{}", "@a = 1\n".repeat(n), "define void @g() {\n  ret\n}\n".repeat(n)),
            20 => format!("define void @f() {{\n{}{}}}\n", "  int32 %v = foo\n".repeat(n), "a:\n  br z\n".repeat(n)),
            21 => format!("define void @f(int32 %{0}) {{\n{0}:\n  br {0} !{0}\n  foo %{0}\n}}\n!{0} = 1\n", "n".repeat(n)),
            22 => format!("{}declare {}void @f()\n", "!1 = 0\n".repeat(n), "pure ".repeat(n)),
            _ => format!("define void @f() {{\n{}a:\n  br a\n}}{}\n@a = 1\n", "\n".repeat(n), " ".repeat(n)),
        }
    })
}

// ---- many ----
/// Very many of one thing.
pub fn many(all: bool) -> Docs {
    const FAM: u64 = 12;
    let sizes = if all { vec![700, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000] } else { vec![999, 1000, 1001, 1024, 1025, 2049] };
    Docs::new("many", &format!("{FAM} families of documents with {sizes:?} symbols, uses, blocks, targets, functions, annotations or errors"), FAM * sizes.len() as u64, move |i| {
        let n = sizes[(i / FAM) as usize];
        let r = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>();
        let rj = |s: &str, f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>().join(s);
        match i % FAM {
            0 => format!("@b = {}\n@a1 = 1\n", "@a1 ".repeat(n)),
            1 => r(&|k| format!("@a{k} = @a{}\n", (k + 1) % n)),
            2 => r(&|k| format!("declare void @f{k}() !{k}\n!{k} = 0\n")),
            3 => format!("define void @f(int32 %x) {{\n{}}}\n", r(&|k| format!("b{k}:\n  br b{}\n", (k + 1) % n))),
            4 => format!("define void @f(int32 %v0) {{\na:\n{}}}\n", r(&|k| format!("  int32 %v{} = add %v{k}\n", k + 1))),
            5 => format!("@b = @a\n{}", "@a = 1\n".repeat(n)),
            6 => r(&|k| format!("@a = @u{k}\n")),
            7 => format!("define void @f(int32 %x) {{\ns:\n  switch int32 %x, default=s,{}\n{}}}\n", rj(",", &|k| format!(" int32 {k} label=b{k}")), r(&|k| format!("b{k}:\n  br s\n"))),
            8 => r(&|k| format!("define void @f{k}(int32 %x) {{\na:\n  foo %x\n  br a\n}}\n")),
            9 => format!("define void @f() {{\na1:\n{}}}\n", "  br a1\n  int32 %p = phi [a1, 1]\n".repeat(n / 2)),
            10 => format!("define void @f({}) {{\n  foo {}\n}}\n", rj(", ", &|k| format!("int32 %x{k}")), rj(", ", &|k| format!("%x{k}"))),
            _ => format!("{}@a1 = @a1\n", "foo bar\n".repeat(n)),
        }
    })
}

// ---- huge: far positions ----
/// Documents with few symbols that are far away from the start of their line or document, or long.
pub fn huge(all: bool) -> Docs {
    const FAM: u64 = 16;
    let mut sizes = vec![500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 10_000, 10_001, 16_384, 32_767, 32_768, 32_769, 65_534, 65_535, 65_536, 65_537, 70_001];
    if all {
        sizes.extend([2000, 2047, 2048, 2049, 5000, 8191, 8192, 8193, 16_383, 16_385, 20_000, 50_000, 99_999, 100_000, 100_001, 131_071, 131_072, 131_073, 200_001, 300_000]);
    }
    let big = *sizes.iter().max().unwrap();
    Docs::new("huge", &format!("{FAM} families of documents with a dimension (lines, columns, lengths of names, comments, strings, numbers, indentation) of {} sizes around powers of two and ten up to {big}", sizes.len()), FAM * sizes.len() as u64, move |i| {
        let n = sizes[(i / FAM) as usize];
        const M: &str = "@a1 = @b, @a1\ndefine void @f(int32 %v1) {\nc1:\n  int32 %v2 = add %v1, %v2 !1\n  br c1\nd:\n  switch int32 %x, default=c1, int32 1 label=d\n}\n!1 = 0\n";
        match i % FAM {
            0 => format!("{}{M}", "\n".repeat(n)),
            1 => format!("{}{M}", "\r\n".repeat(n)),
            2 => format!("{}{M}", "# é𝒳 @a1\n".repeat(n)),
            3 => format!("# {}\n{M}# {0}", "-".repeat(n)),
            4 => format!("@z = \"{}\", @a1, 12\n{M}", "-".repeat(n)),
            5 => format!("@z = \"{}\", @a1, 12\n{M}", "𝒳".repeat(n)),
            6 => format!("@z = \"{}\", @a1, 12 # @a1\n{M}", "\n".repeat(n)),
            7 => format!("{}@z = @a1 # x\n{M}", " ".repeat(n)),
            8 => format!("@z =\t{}@a1, 12{0}# x\n{M}", "\t".repeat(n)),
            9 => format!("{}@{} = @b\n", M, "n".repeat(n)),
            10 => format!("@z = {}, @a1\n{M}", "1".repeat(n)),
            11 => format!("define void @g(int32 %v1) {{\n{}e:\n  int32 %v2 = add %v1, %v3\n  br e\n{0}}}{0}\n{M}", "\n".repeat(n)),
            12 => format!("define void @g(int32 %v1) {{\ne:\n  foo \"{}\", %v1, %v3 !1\n  br e\n}}\n{M}", "é".repeat(n)),
            13 => format!("{M}define void @g() {{\n{0}:\n  br {0}\n}}\n", "n".repeat(n)),
            14 => format!("{M}!2 = {{\"k\": \"{}\"}}\n@z = @a1\n", "k".repeat(n)),
            _ => format!("{M}{}", " \n".repeat(n)),
        }
    })
}

pub fn examples() -> Docs {
    let mut v = vec![];
    if let Ok(d) = std::fs::read_dir("/repo/examples") {
        let mut p: Vec<_> = d.flatten().map(|e| e.path()).filter(|p| p.extension().map_or(false, |e| e == "hir")).collect();
        p.sort();
        for f in p {
            if let Ok(t) = std::fs::read_to_string(f) {
                v.push(t);
            }
        }
    }
    Docs::list("examples", "the repository's example modules", v)
}
/// Every prefix of the small templates (a document while it is being typed).
pub fn prefixes() -> Docs {
    let mut v: Vec<String> = vec![];
    let whole = format!("{}{}{}{}", STMTS[1], STMTS[5], FUNCS[3], FUNCS[5]);
    for t in FUNCS.iter().chain(STMTS).map(|s| s.to_string()).chain([Style::UnicodeCrlf.apply(&whole)]) {
        let c: Vec<char> = t.chars().collect();
        for n in 0..=c.len() {
            v.push(c[..n].iter().collect());
        }
    }
    v.sort();
    v.dedup();
    Docs::list("prefixes", "every prefix of every template (a document being typed)", v)
}

// ---- all characters ----
/// Every character at which some character class changes, the one before it, and all of Latin-1.
pub fn class_bounds() -> Vec<char> {
    let class = |c: char| (c.is_alphabetic(), c.is_numeric(), c.is_whitespace(), c.is_control(), c.len_utf8(), c.len_utf16());
    let all: Vec<char> = ('\0'..=char::MAX).collect();
    let mut v: Vec<char> = vec![];
    for w in all.windows(2) {
        if class(w[0]) != class(w[1]) {
            v.extend(w);
        }
    }
    v.extend('\0'..='\u{ff}');
    // Characters that text processing likes to treat specially.
    v.extend("\u{85}\u{2028}\u{2029}\u{feff}\u{200b}\u{200d}\u{300}\u{2212}\u{2013}\u{2014}\u{ff0b}\u{ff0d}\u{ff20}\u{ff1a}\u{3000}\u{a0}\u{663}\u{b2}\u{2160}\u{1d7d9}\u{1f600}\u{1f1e6}\u{130}\u{131}\u{17f}\u{1e9e}\u{fb01}\u{ffff}\u{10ffff}".chars());
    v.sort();
    v.dedup();
    v
}
const IN_CONTEXT: &[&str] = &["@aCb = CC1\n", "@b = %C \"C\" @a1 # C @a1\n@a1 = 1\n", "define void @f(int32 %xC) {\n  foo C %xC !1C\n}\n", "@a1 = 1 C @a1\n!C1 = @a1\n", "define void @f() {\nCa:\n  br Ca\nb C:\n}\n", "C@a1 = 1\n@b = @a1\n", "@a1 = 1\n@b = @a1C"];
/// Every character in several places of a document.
pub fn characters() -> Docs {
    let v = class_bounds();
    let n = v.len() as u64;
    Docs::new("characters", &format!("each of {n} characters (all of Latin-1 and both sides of every change of character class) in {} contexts", IN_CONTEXT.len()), n * IN_CONTEXT.len() as u64, move |i| {
        let mut d = Dig(i);
        let t = *d.of(IN_CONTEXT);
        t.replace('C', &d.of(&v).to_string())
    })
}
/// All of Unicode, 64 characters per document.
pub fn unicode() -> Docs {
    let v: Vec<char> = ('\0'..=char::MAX).collect();
    let n = v.len().div_ceil(64) as u64;
    Docs::new("unicode", "every Unicode character in a name, after white space, in a string and in a comment (64 per document)", n, move |i| {
        v.iter().skip(i as usize * 64).take(64).map(|c| format!("@a{c}b {c}1 \"{c}\" #{c}\n")).collect()
    })
}

// ---- signatures ----
pub const MODS: &[&str] = &["", "exported ", "async ", "memberfunc ", "noreturn ", "nosideeffects ", "pure ", "exported noreturn ", "pure pure ", "memberfunc nosideeffects pure "];
pub const TYPES: &[&str] = &["void", "int1", "int8", "int16", "int32", "int64", "float32", "float64", "data128", "ptr", "bool"];
pub const ARGS: &[&str] = &["", "T %x", "T %x, ptr %y", "ptr %y, T %x, int1 %x", "T %x,"];
/// Declarations and definitions with every modifier, type, list of arguments and address.
pub fn signatures() -> Docs {
    const ADDR: &[&str] = &["", " = 0x12", " = 0xDEADbeef0123456789", " = 12", " = 0x", " = 0X12", " = 0x00"];
    let n = MODS.len() * TYPES.len() * ARGS.len() * ADDR.len();
    Docs::new("signatures", &format!("{} lists of modifiers x {} types x {} lists of arguments x {} addresses, of a declaration with a reference and of a definition", MODS.len(), TYPES.len(), ARGS.len(), ADDR.len()), n as u64, move |i| {
        let mut d = Dig(i);
        let (m, t, a, x) = (*d.of(MODS), *d.of(TYPES), *d.of(ARGS), *d.of(ADDR));
        let a = a.replace('T', t);
        format!("!1 = \"m.cpp:3\"\n@g = @f1\ndeclare {m}{t} @f1({a}){x} !1\ndefine {m}{t} @h1({a}) {{\na1:\n  {t} %v = add {t} %x, %y !1\n  br a1 !2\n}}\n@h1 depends on @f1\n")
    })
}
/// Words that are (almost) keywords, types or modifiers, wherever one may stand.
pub fn words() -> Docs {
    const W: &[&str] = &[
        "inline", "static", "const", "constexpr", "extern", "external", "export", "import", "internal", "private", "public", "virtual", "override", "final", "noexcept", "nothrow", "nounwind", "readonly", "readnone", "nosideeffect", "sideeffects", "noreturns", "return", "unpure", "impure", "member", "memberfn", "await", "global",
        "local", "linkonce", "weak", "hidden", "volatile", "atomic", "cold", "hot", "naked", "alwaysinline", "noinline", "func", "function", "fn", "def", "decl", "dec", "var", "let", "type", "struct", "class", "enum", "module", "target", "attributes", "metadata", "source_filename", "alias", "ifunc", "section", "align",
        "int", "i1", "i8", "i32", "i64", "u32", "int2", "int4", "int24", "int256", "int512", "int0", "int01", "uint32", "float", "double", "float16", "float32", "float64", "float128", "half", "bool", "char", "string", "data", "data64", "data128", "data256", "pointer", "ptr", "ptr64", "label", "token", "vector", "array", "auto", "void", "Void",
        "VOID", "Int32", "INT32", "Declare", "DECLARE", "declares", "declared", "Define", "DEFINE", "defines", "defined", "Exported", "PURE", "Depends", "depend", "dependson", "dependent", "On", "ON", "of", "upon", "object", "async", "exported", "noreturn", "nosideeffects", "memberfunc", "pure", "declare", "define", "depends", "on",
        "true", "false", "null", "undef", "poison", "none", "self", "this", "if", "else", "while", "for", "goto", "jump", "begin", "end", "block", "entry", "exit", "unreachable", "call", "ret", "store", "load",
    ];
    const AT: &[&str] = &[
        "declare W void @f()\n", "declare pure W void @f()\n", "declare void W @f()\n", "declare W @f()\n", "declare void @f(W %x)\n", "declare void @f(int32 W)\n", "declare void @f() W\n", "declare void @f() W !1\n", "declare void @f() = W\n", "W void @f()\n", "W @f = 1\n", "W\n", "@f W on @g\n", "@f depends W @g\n", "@f W @g\n",
        "@f = W\n", "!1 = W\n", "!1 W 0\n", "define W void @f() {\n  ret\n}\n", "define W @f() {\n  ret\n}\n", "define void @f() W {\n  ret\n}\n", "define void @f() {\n  W\n}\n", "define void @f() {\n  W !1\n}\n", "define void @f() {\n  W %x, @g\n}\n", "define void @f() {\n  W %x = foo\n}\n", "define void @f() {\n  int32 %x = W %x !1\n}\n",
        "define void @f() {\nW:\n  br W\n  br int1 %c, W, W\n}\n", "define void @f() {\na:\n  br W %c, a, a\n}\n", "define void @f() {\na:\n  switch int32 %c, default=a, W 0 label=a\n}\n", "define void @f() {\na:\n  switch int32 %c, W=a, int32 0 W=a\n}\n", "define void @f() {\na:\n  xbr W %c, cont=a, W=a\n}\n", "define void @f() {\na:\n  int32 %v = phi [W, W %c], [a, W]\n}\n",
    ];
    Docs::new("words", &format!("{} words that are or resemble keywords, types and modifiers, in {} places, between good statements", W.len(), AT.len()), (W.len() * AT.len()) as u64, move |i| {
        let mut d = Dig(i);
        let (w, a) = (*d.of(W), *d.of(AT));
        format!("@g = 1\n{}!1 = 0\n", a.replace('W', w))
    })
}

// ---- annotations ----
/// Strings of every length and kind in every place of an annotation.
pub fn annotations(max: u64) -> Docs {
    const UNIT: &[&str] = &["a", "é", "中", "𝒳", "`", "\\n", "\\u0000", "/", ":", "1", "]("];
    const IN: &[&str] = &[
        "{\"backtrace\": [[\"S\", \"src/x.cpp:3\"]]}", "{\"backtrace\": [[\"f\", \"S\"]]}", "{\"backtrace\": [[\"\", \"S:7\"]]}", "{\"backtrace\": [[\"f\", \"x.cpp:S\"], [\"S\"]]}", "{\"S\": 1, \"backtrace\": \"S\"}", "\"S\"", "\"S:4\"", "\"x.cpp:S\"", "S",
    ];
    let (u, k) = (UNIT.len() as u64, IN.len() as u64);
    Docs::new("annotations", &format!("{u} kinds of text, repeated 0 to {max} times after 0 or 1 letters, in {k} places of an annotation"), u * k * (max + 1) * 2, move |i| {
        let mut d = Dig(i);
        let (place, unit, one, n) = (*d.of(IN), *d.of(UNIT), d.take(2), d.take(max as usize + 1));
        let ann = place.replace('S', &format!("{}{}", "a".repeat(one), unit.repeat(n)));
        format!("declare void @d() !1\ndefine void @f(int32 %x) {{\na:\n  foo @d, %x !1\n  br a !1\n}}\n!1 = {ann}\n@g = @d\n")
    })
}

// ---- names ----
/// Names of every shape: keywords, mnemonics, qualified, numbered, long, prefixes of each other.
pub const NAMES: &[&str] = &[
    "", "_", "__", "_a", "a_", "_1", "a", "b", "a1", "a2", "a10", "bb", "bb2", "B", "A", "aA", "1", "2", "01", "10", "1a", "a::b", "a:b", "::a", "a::", "b::a", "a::1", "é", "e\u{301}", "𝒳1", "ß", "SS", "İ", "declare", "define", "exported", "noreturn", "pure", "void", "int1", "int32", "ptr",
    "int32_", "br", "brx", "switch", "phi", "depends", "on", "default", "label", "cont", "overflow", "ret", "0x1", "xbr", "a.b", "a-b", "a$", "body_0", "body_00", "std::vector_2", "node", "Graph", "subgraph", "true", "null",
    "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn1",
    "éééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééé",
];
const NAMED: &[&str] = &[
    "@N = 1\n@M = @N, @M\n@N depends on @M, @N\n",
    "declare void @N() !1\ndefine void @M() {\n  call @N()\n  call @M() !1\n}\n@u = @N\n!1 = 0\n",
    "declare void @u() !N\n!M = 0\n!N = 0\ndefine void @q() {\n  ret !N\n  ret !M\n}\n",
    "define void @q(int32 %N, int32 %M) {\n  int32 %y = add %N, %M\n  int32 %N = foo\n}\ndefine void @r(int32 %M) {\n  foo %N, %M\n}\n",
    "define void @q(int1 %c) {\nN:\n  br M\n  int32 %v = phi [N, 1], [M, 2]\n  br int1 %c, N, M\nM:\n  switch int32 %c, default=N, int32 0 label=M\n  int32 %w = saddbr %c, cont=M, overflow=N\n}\ndefine void @r() {\nM:\n  br M\n  br N\n}\n",
    "@N = @M\ndeclare void @M() !N\n!N = 0\ndefine void @M(int32 %N) {\nN:\n  br N\n  foo @N, %N !N\n}\n",
];
pub fn names(all: bool) -> Docs {
    let n = NAMES.len() as u64;
    let k = NAMED.len() as u64;
    let second: Vec<&str> = if all { NAMES.to_vec() } else { vec!["a", "b", "_", "bb", "a1", "é", "a::b", "br"] };
    Docs::new("names", &format!("{n} names (keywords, mnemonics, qualified, numbered, long, prefixes of each other) x {} names for symbols of each kind", second.len()), n * second.len() as u64 * k, move |i| {
        let mut d = Dig(i);
        let (t, a, b) = (*d.of(NAMED), *d.of(NAMES), *d.of(&second));
        t.chars().map(|c| match c { 'N' => a.to_string(), 'M' => b.to_string(), c => c.to_string() }).collect()
    })
}

// ---- how often ----
/// Every number of declarations, definitions and uses of one symbol, for each kind of symbol.
pub fn multiplicity(max: u64) -> Docs {
    let m = max + 1;
    let per = m * m * m * 6;
    Docs::new("multiplicity", &format!("0 to {max} declarations, definitions and uses (or definitions and two kinds of uses) of one symbol of each kind, in all 6 orders of the three groups"), per * 5, move |i| {
        let mut d = Dig(i);
        let kind = d.take(5);
        let n: Vec<usize> = (0..3).map(|_| d.take(m as usize)).collect();
        let order = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][d.take(6)];
        let parts: [&str; 3] = match kind {
            0 => ["declare void @s1() !1\n", "define void @s1() {\n  ret\n}\n", "@u = @s1\n"],
            1 => ["@s1 = 1\n", "@u = @s1\n", "@u depends on @s1, @s1\n"],
            2 => ["!s1 = 1\n", "declare void @u() !s1\n", "define void @v() {\n  ret !s1\n}\n"],
            3 => ["  int32 %s1 = foo\n", "  bar %s1\n", "  int32 %u = add %s1, %s1 !1\n"],
            _ => ["s1:\n  foo\n", "  br s1\n", "  int32 %u = phi [s1, 1]\n"],
        };
        let body: String = order.iter().map(|k| parts[*k].repeat(n[*k])).collect();
        match kind {
            0 | 1 | 2 => format!("{body}@z = 1\n"),
            _ => format!("define void @q(int32 %u) {{\na:\n{body}}}\ndefine void @r(int32 %s1) {{\ns1:\n  br s1\n}}\n"),
        }
    })
}

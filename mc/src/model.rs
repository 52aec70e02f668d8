//! Reference semantics of Hyper IR and of what a client should see, written from the language
//! rules (not from the server's code): lexer, grammar, scopes, LSP coordinates.
use std::collections::HashMap;

pub type Span = (usize, usize); // char offsets, half open
pub type Pos = (u64, u64); // line, UTF-16 column
pub type Rng = (Pos, Pos);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum K {
    Comment,
    Num,
    Hex,
    Str,
    Local,
    Global,
    Dbg,
    Type,
    Ident,
    Mod,
    Punct(char),
    Nl,
    Declare,
    Define,
}
#[derive(Clone, Debug)]
pub struct Tok {
    pub k: K,
    pub s: usize,
    pub e: usize,
    pub t: String,
}

pub const TYPES: [&str; 10] = ["void", "int1", "int8", "int16", "int32", "int64", "float32", "float64", "data128", "ptr"];
pub const MODS: [&str; 6] = ["exported", "async", "memberfunc", "noreturn", "nosideeffects", "pure"];

/// The text with its LSP line structure.
pub struct Text {
    pub c: Vec<char>,
    /// (first char, end without line break, end with line break) of every line
    pub lines: Vec<(usize, usize, usize)>,
}
impl Text {
    pub fn new(t: &str) -> Text {
        let c: Vec<char> = t.chars().collect();
        let mut lines = vec![];
        let mut start = 0;
        let mut i = 0;
        while i < c.len() {
            let n = if c[i] == '\r' && c.get(i + 1) == Some(&'\n') {
                2
            } else if c[i] == '\r' || c[i] == '\n' {
                1
            } else {
                i += 1;
                continue;
            };
            lines.push((start, i, i + n));
            i += n;
            start = i;
        }
        lines.push((start, c.len(), c.len()));
        Text { c, lines }
    }
    pub fn line_of(&self, off: usize) -> usize {
        match self.lines.binary_search_by(|l| l.0.cmp(&off)) {
            Ok(i) => i,
            Err(i) => i - 1,
        }
    }
    pub fn pos(&self, off: usize) -> Pos {
        let l = self.line_of(off);
        let w: usize = self.c[self.lines[l].0..off].iter().map(|c| c.len_utf16()).sum();
        (l as u64, w as u64)
    }
    pub fn rng(&self, s: Span) -> Rng {
        (self.pos(s.0), self.pos(s.1))
    }
    /// Char offset of a position; `None` beyond the end of its line or of the document, or
    /// inside a surrogate pair.
    pub fn off(&self, p: Pos) -> Option<usize> {
        let &(s, e, _) = self.lines.get(p.0 as usize)?;
        let mut w = 0;
        for i in s..e {
            if w == p.1 {
                return Some(i);
            }
            w += self.c[i].len_utf16() as u64;
        }
        (w == p.1).then_some(e)
    }
    pub fn str(&self, s: Span) -> String {
        self.c[s.0..s.1].iter().collect()
    }
    pub fn line_width(&self, l: usize) -> u64 {
        let (s, e, _) = self.lines[l];
        self.c[s..e].iter().map(|c| c.len_utf16() as u64).sum()
    }
}

fn head(c: char) -> bool {
    c.is_alphabetic() || c == '_'
}
fn word(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}
/// End of the longest identifier tail starting at `i`: words, with colons only between.
fn tail(c: &[char], mut i: usize) -> usize {
    loop {
        let mut j = i;
        while j < c.len() && c[j] == ':' {
            j += 1;
        }
        if j < c.len() && word(c[j]) {
            i = j + 1;
        } else {
            return i;
        }
    }
}
fn int(c: &[char], i: usize, radix: u32) -> Option<usize> {
    let f = *c.get(i)?;
    if f == '0' {
        return Some(i + 1);
    }
    if !f.is_digit(radix) {
        return None;
    }
    let mut j = i + 1;
    while j < c.len() && c[j].is_digit(radix) {
        j += 1;
    }
    Some(j)
}
fn nl(c: &[char], i: usize) -> Option<usize> {
    match c.get(i)? {
        '\n' => Some(i + 1),
        '\r' if c.get(i + 1) == Some(&'\n') => Some(i + 2),
        _ => None,
    }
}

/// One token at `i`, if there is one.
fn one(c: &[char], i: usize) -> Option<(K, usize)> {
    let f = c[i];
    if f == '#' {
        let mut j = i + 1;
        while j < c.len() && nl(c, j).is_none() {
            j += 1;
        }
        return Some((K::Comment, j));
    }
    if f == '0' && c.get(i + 1) == Some(&'x') {
        if let Some(j) = int(c, i + 2, 16) {
            return Some((K::Hex, j));
        }
    }
    if let Some(j) = int(c, i, 10) {
        return Some((K::Num, j));
    }
    if f == '"' {
        let j = (i + 1..c.len()).find(|&j| c[j] == '"')?;
        return Some((K::Str, j + 1));
    }
    if "[]{}()<>=,;:*.".contains(f) {
        return Some((K::Punct(f), i + 1));
    }
    if head(f) {
        let j = tail(c, i + 1);
        let t: String = c[i..j].iter().collect();
        let k = match t.as_str() {
            "declare" => K::Declare,
            "define" => K::Define,
            t if MODS.contains(&t) => K::Mod,
            t if TYPES.contains(&t) => K::Type,
            _ => K::Ident,
        };
        return Some((k, j));
    }
    match f {
        '@' => return Some((K::Global, tail(c, i + 1))),
        '%' => return Some((K::Local, tail(c, i + 1))),
        '!' => return Some((K::Dbg, tail(c, i + 1))),
        _ => {}
    }
    nl(c, i).map(|j| (K::Nl, j))
}
/// Tokens (comments included) and the characters that belong to no token.
pub fn lex(c: &[char]) -> (Vec<Tok>, Vec<usize>) {
    let (mut v, mut bad) = (vec![], vec![]);
    let mut i = 0;
    while i < c.len() {
        if c[i] == ' ' || c[i] == '\t' {
            i += 1;
        } else if let Some((k, e)) = one(c, i) {
            v.push(Tok { k, s: i, e, t: c[i..e].iter().collect() });
            i = e;
        } else {
            bad.push(i);
            i += 1;
        }
    }
    (v, bad)
}
/// Does `name` lex as exactly one token of kind `k`?
pub fn lexes_as(name: &str, k: K) -> bool {
    let c: Vec<char> = name.chars().collect();
    let (t, bad) = lex(&c);
    bad.is_empty() && t.len() == 1 && t[0].k == k && t[0].e == c.len() && t[0].s == 0
}

pub type Named = (String, Span);
#[derive(Clone, Debug)]
pub struct Instr {
    pub op: Named,
    pub target: Option<Named>,
    pub refs: Vec<Named>,
    pub dbg: Option<Named>,
    pub start: usize,
    pub end: usize,
}
impl Instr {
    pub fn branching(&self) -> bool {
        self.op.0.ends_with("br") || self.op.0 == "switch"
    }
}
#[derive(Clone, Debug)]
pub struct Block {
    pub label: Option<(String, Span, usize)>, // name, span, end of the colon
    pub instrs: Vec<Instr>,
    pub start: usize,
    pub end: usize,
}
#[derive(Clone, Debug)]
pub enum Stmt {
    Global { name: Named },
    Decl { name: Named, dbg: Option<Named> },
    Def { define: usize, name: Named, args: Vec<Named>, blocks: Vec<Block>, close: usize },
    Deps,
    Dbg { name: Named, def: Vec<Tok> },
}

struct P<'a> {
    t: &'a [Tok],
    i: usize,
    /// A line break was consumed inside an instruction, or another construct whose meaning the
    /// language does not settle.
    weird: bool,
}
impl P<'_> {
    fn k(&self, o: usize) -> Option<K> {
        self.t.get(self.i + o).map(|t| t.k)
    }
    fn eat(&mut self, k: K) -> Option<Named> {
        let t = self.t.get(self.i)?;
        if t.k != k {
            return None;
        }
        self.i += 1;
        Some((t.t.clone(), (t.s, t.e)))
    }
    fn p(&mut self, c: char) -> Option<Named> {
        self.eat(K::Punct(c))
    }
    fn word(&mut self, w: &str) -> Option<Named> {
        if self.t.get(self.i)?.t != w {
            return None;
        }
        self.eat(K::Ident)
    }
    fn nls(&mut self) -> usize {
        let a = self.i;
        while self.k(0) == Some(K::Nl) {
            self.i += 1;
        }
        self.i - a
    }
    fn eol(&mut self) -> Option<()> {
        if self.i == self.t.len() {
            return Some(());
        }
        self.eat(K::Nl).map(|_| ())
    }
    fn soup(&mut self) -> Vec<Tok> {
        let a = self.i;
        while self.k(0).map_or(false, |k| k != K::Nl) {
            self.i += 1;
        }
        self.t[a..self.i].to_vec()
    }
    fn any(&mut self) -> Option<()> {
        if self.k(0)? == K::Nl {
            self.weird = true;
        }
        self.i += 1;
        Some(())
    }
    fn atomic<R>(&mut self, f: impl FnOnce(&mut Self) -> Option<R>) -> Option<R> {
        let (a, w) = (self.i, self.weird);
        let r = f(self);
        if r.is_none() {
            self.i = a;
            self.weird = w;
        }
        r
    }
    fn at_nl(&self) -> Option<()> {
        (self.k(0) == Some(K::Nl)).then_some(())
    }
    fn sig(&mut self) -> Option<(Named, Vec<Named>)> {
        while self.k(0) == Some(K::Mod) {
            self.i += 1;
        }
        self.eat(K::Type)?;
        let n = self.eat(K::Global)?;
        self.p('(')?;
        let mut args = vec![];
        if self.k(0) != Some(K::Punct(')')) {
            loop {
                self.eat(K::Type)?;
                args.push(self.eat(K::Local)?);
                if self.k(0) != Some(K::Punct(',')) {
                    break;
                }
                self.i += 1;
            }
        }
        self.p(')')?;
        Some((n, args))
    }
    /// Operands up to `, <kw>`.
    fn operands_until(&mut self, kw: &str) {
        loop {
            match self.k(0) {
                None | Some(K::Nl) => return,
                Some(K::Punct(',')) => {
                    let Some(n) = self.t.get(self.i + 1) else { return };
                    if n.k == K::Ident && n.t == kw {
                        return;
                    }
                    if n.k == K::Nl || n.k == K::Punct(',') {
                        self.weird = true;
                    }
                    self.i += 2;
                }
                _ => self.i += 1,
            }
        }
    }
    fn instr(&mut self) -> Option<Instr> {
        let start = self.t.get(self.i)?.s;
        let target = self.atomic(|p| {
            p.eat(K::Type)?;
            let n = p.eat(K::Local)?;
            p.p('=')?;
            Some(n)
        });
        type R = (Named, Vec<Named>, Option<Named>);
        let br = |p: &mut Self| -> Option<R> {
            let op = p.word("br")?;
            let t = p.eat(K::Ident)?;
            let d = p.eat(K::Dbg);
            p.at_nl()?;
            Some((op, vec![t], d))
        };
        let cond = |p: &mut Self| -> Option<R> {
            let op = p.word("br")?;
            if p.t.get(p.i)?.t != "int1" {
                return None;
            }
            p.eat(K::Type)?;
            p.any()?;
            p.p(',')?;
            let a = p.eat(K::Ident)?;
            p.p(',')?;
            let b = p.eat(K::Ident)?;
            let d = p.eat(K::Dbg);
            p.at_nl()?;
            Some((op, vec![a, b], d))
        };
        let ovf = |p: &mut Self| -> Option<R> {
            let op = p.eat(K::Ident)?;
            p.operands_until("cont");
            p.p(',')?;
            p.word("cont")?;
            p.p('=')?;
            let a = p.eat(K::Ident)?;
            p.p(',')?;
            p.word("overflow")?;
            p.p('=')?;
            let b = p.eat(K::Ident)?;
            let d = p.eat(K::Dbg);
            p.at_nl()?;
            Some((op, vec![a, b], d))
        };
        let ovf_br = |p: &mut Self| ovf(p).filter(|r| r.0 .0.ends_with("br"));
        // Not an instruction; what error recovery makes of it is not settled.
        let ovf_other = |p: &mut Self| {
            let r = ovf(p);
            p.weird |= r.is_some();
            r
        };
        let switch = |p: &mut Self| -> Option<R> {
            let op = p.word("switch")?;
            p.operands_until("default");
            p.p(',')?;
            p.word("default")?;
            p.p('=')?;
            let mut refs = vec![p.eat(K::Ident)?];
            p.p(',')?;
            let case = |p: &mut Self| -> Option<Named> {
                p.eat(K::Type)?;
                p.any()?;
                p.word("label")?;
                p.p('=')?;
                p.eat(K::Ident)
            };
            if let Some(c) = p.atomic(case) {
                refs.push(c);
                while let Some(c) = p.atomic(|p| {
                    p.p(',')?;
                    case(p)
                }) {
                    refs.push(c);
                }
            }
            let d = p.eat(K::Dbg);
            p.at_nl()?;
            Some((op, refs, d))
        };
        let phi = |p: &mut Self| -> Option<R> {
            let op = p.word("phi")?;
            let mut refs = vec![];
            let inp = |p: &mut Self| -> Option<Named> {
                p.p('[')?;
                let a = p.eat(K::Ident)?;
                p.p(',')?;
                while p.k(0).map_or(false, |k| k != K::Nl && k != K::Punct(']')) {
                    p.i += 1;
                }
                p.p(']')?;
                Some(a)
            };
            if let Some(a) = p.atomic(inp) {
                refs.push(a);
                while let Some(a) = p.atomic(|p| {
                    p.p(',')?;
                    inp(p)
                }) {
                    refs.push(a);
                }
            }
            let d = p.eat(K::Dbg);
            p.at_nl()?;
            Some((op, refs, d))
        };
        let other = |p: &mut Self| -> Option<R> {
            let op = p.eat(K::Ident)?;
            if p.k(0)? == K::Punct(':') {
                return None;
            }
            while p.k(0).map_or(false, |k| k != K::Nl && k != K::Dbg) {
                p.i += 1;
            }
            let d = p.eat(K::Dbg);
            p.at_nl()?;
            Some((op, vec![], d))
        };
        let r = self
            .atomic(br)
            .or_else(|| self.atomic(cond))
            .or_else(|| self.atomic(ovf_br))
            .or_else(|| self.atomic(switch))
            .or_else(|| self.atomic(phi))
            .or_else(|| self.atomic(other))
            .or_else(|| self.atomic(ovf_other))?;
        Some(Instr { op: r.0, target, refs: r.1, dbg: r.2, start, end: self.t[self.i - 1].e })
    }
    fn instrs(&mut self) -> Vec<Instr> {
        let mut v = vec![];
        while let Some(i) = self.atomic(|p| {
            p.nls();
            let r = p.instr();
            p.nls();
            r
        }) {
            v.push(i);
        }
        v
    }
    fn stmt(&mut self) -> Option<Stmt> {
        let global = |p: &mut Self| {
            let name = p.eat(K::Global)?;
            p.p('=')?;
            p.soup();
            p.eol()?;
            Some(Stmt::Global { name })
        };
        let decl = |p: &mut Self| {
            p.eat(K::Declare)?;
            let (name, _) = p.sig()?;
            p.atomic(|p| {
                p.p('=')?;
                p.eat(K::Hex)
            });
            let dbg = p.eat(K::Dbg);
            p.eol()?;
            Some(Stmt::Decl { name, dbg })
        };
        let def = |p: &mut Self| {
            let d = p.eat(K::Define)?;
            let (name, args) = p.sig()?;
            p.p('{')?;
            if p.nls() == 0 {
                return None;
            }
            let mut blocks = vec![];
            let first = p.instrs();
            if !first.is_empty() {
                blocks.push(Block { label: None, start: first[0].start, end: first.last().unwrap().end, instrs: first });
            }
            while let Some(b) = p.atomic(|p| {
                let l = p.eat(K::Ident)?;
                let c = p.p(':')?;
                if p.nls() == 0 {
                    return None;
                }
                let instrs = p.instrs();
                let end = instrs.last().map_or(l.1 .1, |i| i.end);
                Some(Block { start: l.1 .0, end, label: Some((l.0, l.1, c.1 .1)), instrs })
            }) {
                blocks.push(b);
            }
            let close = p.p('}')?;
            p.eol()?;
            Some(Stmt::Def { define: d.1 .0, name, args, blocks, close: close.1 .1 })
        };
        let deps = |p: &mut Self| {
            p.eat(K::Global)?;
            p.word("depends")?;
            p.word("on")?;
            if p.eat(K::Global).is_some() {
                while p
                    .atomic(|p| {
                        p.p(',')?;
                        p.eat(K::Global)
                    })
                    .is_some()
                {}
            }
            Some(Stmt::Deps)
        };
        let dbg = |p: &mut Self| {
            let name = p.eat(K::Dbg)?;
            p.p('=')?;
            let def = p.soup();
            p.eol()?;
            Some(Stmt::Dbg { name, def })
        };
        self.atomic(global)
            .or_else(|| self.atomic(decl))
            .or_else(|| self.atomic(def))
            .or_else(|| self.atomic(deps))
            .or_else(|| self.atomic(dbg))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum SymKind {
    GlobalVar,
    Function,
    Dbg,
    Label,
    Local,
}
impl SymKind {
    pub fn sigil(self) -> &'static str {
        match self {
            SymKind::GlobalVar | SymKind::Function => "@",
            SymKind::Dbg => "!",
            SymKind::Label => "",
            SymKind::Local => "%",
        }
    }
    pub fn tok(self) -> K {
        match self {
            SymKind::GlobalVar | SymKind::Function => K::Global,
            SymKind::Dbg => K::Dbg,
            SymKind::Label => K::Ident,
            SymKind::Local => K::Local,
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Role {
    Decl,
    Def,
    Use,
}
#[derive(Clone, Debug)]
pub struct Sym {
    pub kind: SymKind,
    pub scope: Option<usize>,
    pub name: String,
    pub decls: Vec<Span>,
    pub defs: Vec<Span>,
    pub uses: Vec<Span>,
}
impl Sym {
    pub fn all(&self) -> Vec<Span> {
        let mut v = self.decls.clone();
        v.extend(&self.defs);
        v.extend(&self.uses);
        v.sort();
        v
    }
    /// The number at the end of the name, if it is a canonical decimal numeral in range.
    pub fn number(&self) -> Num {
        number(&self.name)
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Num {
    None,
    Some(String, i64),
    /// Leading zeros, other digits, too large: not settled.
    Unclear,
}
pub fn number(name: &str) -> Num {
    let c: Vec<char> = name.chars().collect();
    let mut i = c.len();
    while i > 0 && c[i - 1].is_numeric() {
        i -= 1;
    }
    if i == c.len() {
        return Num::None;
    }
    let d: String = c[i..].iter().collect();
    if !d.chars().all(|c| c.is_ascii_digit()) || (d.len() > 1 && d.starts_with('0')) {
        return Num::Unclear;
    }
    match d.parse::<i64>() {
        Ok(n) => Num::Some(c[..i].iter().collect(), n),
        Err(_) => Num::Unclear,
    }
}
#[derive(Clone, Debug)]
pub struct Body {
    pub name: Named,
    pub range: Span,
    pub args: Vec<Named>,
    pub blocks: Vec<Block>,
}
impl Body {
    /// Branch edges between a labelled block and its targets.
    pub fn edges(&self) -> Vec<(String, String)> {
        let mut v = vec![];
        for b in &self.blocks {
            if let Some(l) = &b.label {
                for i in b.instrs.iter().filter(|i| i.branching()) {
                    for r in &i.refs {
                        v.push((l.0.clone(), r.0.clone()));
                    }
                }
            }
        }
        v.sort();
        v.dedup();
        v
    }
}

pub struct Model {
    pub text: Text,
    pub toks: Vec<Tok>,
    pub bad: Vec<usize>,
    pub stmts: Vec<Stmt>,
    pub well_formed: bool,
    /// Constructs whose meaning is not settled occur; only survival is checked then.
    pub weird: bool,
    pub syms: Vec<Sym>,
    /// Occurrences in document order.
    pub occs: Vec<(Span, usize, Role)>,
    pub bodies: Vec<Body>,
}

impl Model {
    pub fn new(t: &str) -> Model {
        let text = Text::new(t);
        let (toks, bad) = lex(&text.c);
        let code: Vec<Tok> = toks.iter().filter(|t| t.k != K::Comment).cloned().collect();
        let mut p = P { t: &code, i: 0, weird: false };
        let mut stmts = vec![];
        let mut well_formed = bad.is_empty();
        loop {
            p.nls();
            if p.i == code.len() {
                break;
            }
            if let Some(s) = p.stmt() {
                stmts.push(s);
            } else {
                well_formed = false;
                p.i += 1;
            }
        }
        let weird = p.weird;

        // Definitions and declarations
        let mut ids: HashMap<(SymKind, Option<usize>, String), usize> = HashMap::new();
        let mut syms: Vec<Sym> = vec![];
        let mut occs: Vec<(Span, usize, Role)> = vec![];
        let mut add = |syms: &mut Vec<Sym>, kind, scope, n: &Named, role| {
            let id = *ids.entry((kind, scope, n.0.clone())).or_insert_with(|| {
                syms.push(Sym { kind, scope, name: n.0.clone(), decls: vec![], defs: vec![], uses: vec![] });
                syms.len() - 1
            });
            match role {
                Role::Decl => syms[id].decls.push(n.1),
                Role::Def => syms[id].defs.push(n.1),
                Role::Use => syms[id].uses.push(n.1),
            }
            occs.push((n.1, id, role));
        };
        let mut bodies: Vec<Body> = vec![];
        let mut taken: std::collections::HashSet<usize> = Default::default();
        let mut funcs: std::collections::HashSet<String> = Default::default();
        for s in &stmts {
            match s {
                Stmt::Global { name } => {
                    add(&mut syms, SymKind::GlobalVar, None, name, Role::Def);
                    taken.insert(name.1 .0);
                }
                Stmt::Decl { name, .. } => {
                    add(&mut syms, SymKind::Function, None, name, Role::Decl);
                    taken.insert(name.1 .0);
                    funcs.insert(name.0.clone());
                }
                Stmt::Deps => {}
                Stmt::Dbg { name, .. } => {
                    add(&mut syms, SymKind::Dbg, None, name, Role::Def);
                    taken.insert(name.1 .0);
                }
                Stmt::Def { define, name, args, blocks, close } => {
                    add(&mut syms, SymKind::Function, None, name, Role::Def);
                    taken.insert(name.1 .0);
                    funcs.insert(name.0.clone());
                    let sc = Some(bodies.len());
                    for a in args {
                        add(&mut syms, SymKind::Local, sc, a, Role::Def);
                        taken.insert(a.1 .0);
                    }
                    for b in blocks {
                        if let Some(l) = &b.label {
                            add(&mut syms, SymKind::Label, sc, &(l.0.clone(), l.1), Role::Def);
                        }
                        for i in &b.instrs {
                            if let Some(t) = &i.target {
                                add(&mut syms, SymKind::Local, sc, t, Role::Def);
                                taken.insert(t.1 .0);
                            }
                            for r in &i.refs {
                                add(&mut syms, SymKind::Label, sc, r, Role::Use);
                            }
                        }
                    }
                    bodies.push(Body { name: name.clone(), range: (*define, *close), args: args.clone(), blocks: blocks.clone() });
                }
            }
        }
        // Uses; a name that is both a global variable and a function names the function.
        for t in &toks {
            if taken.contains(&t.s) {
                continue;
            }
            let n = (t.t.clone(), (t.s, t.e));
            match t.k {
                K::Global if funcs.contains(&t.t) => add(&mut syms, SymKind::Function, None, &n, Role::Use),
                K::Global => add(&mut syms, SymKind::GlobalVar, None, &n, Role::Use),
                K::Dbg => add(&mut syms, SymKind::Dbg, None, &n, Role::Use),
                K::Local => {
                    if let Some(b) = bodies.iter().position(|b| b.range.0 <= t.s && t.s < b.range.1) {
                        add(&mut syms, SymKind::Local, Some(b), &n, Role::Use)
                    }
                }
                _ => {}
            }
        }
        occs.sort_by_key(|o| o.0);
        Model { text, toks, bad, stmts, well_formed, weird, syms, occs, bodies }
    }
    pub fn rng(&self, s: Span) -> Rng {
        self.text.rng(s)
    }
    /// The occurrence containing the char at `off`.
    pub fn at(&self, off: usize) -> Option<&(Span, usize, Role)> {
        self.occs.iter().find(|o| o.0 .0 <= off && off < o.0 .1)
    }
    pub fn at_pos(&self, p: Pos) -> Option<&(Span, usize, Role)> {
        self.text.off(p).and_then(|o| self.at(o))
    }
    /// Is the position inside a surrogate pair?
    pub fn splits_char(&self, p: Pos) -> bool {
        (p.0 as usize) < self.text.lines.len() && p.1 < self.text.line_width(p.0 as usize) && self.text.off(p).is_none()
    }
    /// Every position of the document, one column beyond each line end, and beyond the end.
    pub fn positions(&self) -> Vec<Pos> {
        if self.huge() {
            return self.key_positions();
        }
        let mut v = vec![];
        for l in 0..self.text.lines.len() {
            for c in 0..=self.text.line_width(l) + 1 {
                v.push((l as u64, c));
            }
        }
        v.push((self.text.lines.len() as u64, 0));
        v
    }
    /// Positions that tell the symbols apart: around the borders of every occurrence, line ends.
    pub fn key_positions(&self) -> Vec<Pos> {
        let mut v = vec![];
        for o in self.key_occs() {
            let (a, b) = self.rng(o.0);
            v.push(a);
            v.push((a.0, a.1 + 1));
            v.push(b);
            if b.1 > 0 {
                v.push((b.0, b.1 - 1));
            }
        }
        for t in &self.toks {
            if t.k == K::Ident && !self.huge() {
                v.push(self.text.pos(t.s));
            }
        }
        for l in self.key_lines() {
            v.push((l as u64, 0));
            v.push((l as u64, self.text.line_width(l)));
        }
        v.sort();
        v.dedup();
        v
    }
    /// The occurrences to ask about: all, if there are very many the first, middle and last ones.
    pub fn key_occs(&self) -> Vec<&(Span, usize, Role)> {
        let n = self.occs.len();
        if n <= 900 {
            return self.occs.iter().collect();
        }
        [0, 1, 2, n / 2, n / 2 + 1, n - 3, n - 2, n - 1].iter().map(|i| &self.occs[*i]).collect()
    }
    /// Too large to ask about every position.
    pub fn huge(&self) -> bool {
        self.text.c.len() > 20_000 || self.text.lines.len() > 900 || self.occs.len() > 900
    }
    /// The lines to ask about: all, in a huge document those with symbols, their neighbours, and the outermost.
    pub fn key_lines(&self) -> Vec<usize> {
        let n = self.text.lines.len();
        if !self.huge() {
            return (0..n).collect();
        }
        let mut v = vec![0, 1, n.saturating_sub(2), n - 1];
        for o in self.key_occs() {
            let l = self.text.line_of(o.0 .0);
            v.extend([l.saturating_sub(1), l, l + 1]);
        }
        v.retain(|l| *l < n);
        v.sort();
        v.dedup();
        v
    }

    /// Expected semantic diagnostics: (range, symbol or instruction name, first definition).
    pub fn semantic_diags(&self) -> Vec<(Rng, String, Option<Rng>)> {
        let mut v = vec![];
        for s in &self.syms {
            if s.decls.is_empty() && s.defs.is_empty() {
                for u in &s.uses {
                    v.push((self.rng(*u), s.name.clone(), None));
                }
            }
            for d in s.defs.iter().skip(1) {
                v.push((self.rng(*d), s.name.clone(), Some(self.rng(s.defs[0]))));
            }
        }
        for b in &self.bodies {
            for i in b.blocks.iter().flat_map(|b| &b.instrs) {
                if (i.branching() || i.op.0 == "phi") && i.refs.is_empty() {
                    v.push((self.rng(i.op.1), i.op.0.clone(), None));
                }
            }
        }
        v.sort();
        v
    }
    /// Expected highlight class per character (`None`: uncoloured).
    pub fn classes(&self) -> Vec<Option<&'static str>> {
        let mut v = vec![None; self.text.c.len()];
        for t in &self.toks {
            let c = match t.k {
                K::Comment => "comment",
                K::Num | K::Hex => "number",
                K::Str => "string",
                K::Local | K::Global => "variable",
                K::Type => "type",
                K::Mod => "modifier",
                K::Declare | K::Define => "keyword",
                K::Ident | K::Dbg | K::Punct(_) | K::Nl => continue,
            };
            v[t.s..t.e].fill(Some(c));
        }
        v
    }
}

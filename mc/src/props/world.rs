//! Properties that involve the file system: external definitions and backtraces.
use super::doc::{self, hints};
use super::proto::{find_file, root_uri, uri_path, workspace};
use crate::engine::{seq_at, seq_count, Ctx, Dig, Space, Verdict, URI};
use crate::lsp::*;
use crate::model::*;
use serde_json::{json, Value};

fn with_roots(roots: &[String]) -> Value {
    let f: Vec<Value> = roots.iter().map(|u| json!({"uri": u, "name": "n"})).collect();
    json!({"processId": null, "rootUri": null, "capabilities": {}, "workspaceFolders": f})
}
fn root_sets() -> Vec<Vec<String>> {
    let r = |x: &str| root_uri(x);
    vec![
        vec![],
        vec![r("r1")],
        vec![r("r2")],
        vec![r("r1"), r("r2")],
        vec![r("r2"), r("r1")],
        vec![r("r1/")],
        vec![r("r2/"), r("r1/")],
        vec![r("missing"), r("r1")],
        vec!["untitled:x".into(), "http://localhost/r1".into(), r("r2"), "mailto:a@b".into(), r("r1")],
        vec![r("r ü")],
        vec![r("r1/src"), r("r1")],
        vec![r("r1/only1.cpp"), r("r2")],
        vec![format!("vscode-remote://host{}/r1", workspace().dir)],
    ]
}

// ---- C07 ----
/// (annotation text, Some((path, line)) if of the form path:line, unclear)
fn annotations() -> Vec<(String, Option<(String, u64)>, bool)> {
    let mut v: Vec<(String, Option<(String, u64)>, bool)> = vec![];
    for f in [
        "src/m.cpp", "only1.cpp", "only2.cpp", "only3.cpp", "nowhere.cpp", "src/nowhere.cpp", "a b.cpp", "é𝒳.cpp", "p%20q.cpp", "p q.cpp", "h#sh.cpp", "q?m.cpp", "sub/deep/er/n.h", "m.cpp", "M.cpp", "src", "sub/deep", "src/m.cpp.o",
        "SRC/m.cpp", "src/k.cpp", "hyper/x.cpp", "empty.cpp", "link.cpp", "linked/deep/er/n.h", "dangling.cpp", "folder.cpp",
    ] {
        for l in [1, 3, 4_000_000_000u64] {
            v.push((format!("\"{f}:{l}\""), Some((f.to_string(), l)), false));
        }
    }
    // A line number of zero: some answer, never a failure.
    v.push(("\"src/m.cpp:0\"".into(), Some(("src/m.cpp".into(), 0)), false));
    // Not of the form.
    for a in [
        "\"src/m.cpp\"", "\"src/m.cpp:\"", "\"src/m.cpp:x\"", "\"src/m.cpp:-1\"", "\"src/m.cpp:3:4\"", "\"src/m.cpp: 3\"", "\"src/m.cpp:3 \"", "\"src/m.cpp 3\"", "\"\"", "\":\"", "\"3\"", "\"src/m.cpp:3x\"", "\"src/m.cpp:1.5\"", "\"src/m.cpp:0x3\"",
        "\"src/m.cpp:99999999999\"", "3", "{\"a\": \"src/m.cpp:3\"}", "\"src/m.cpp:3\" 1", "\"src/m.cpp:3\" \"only1.cpp:3\"", "1 \"src/m.cpp:3\"", "@src", "{\"backtrace\": [[\"F\", \"src/m.cpp:3\"]]}", "[\"src/m.cpp:3\"]", "\"x:y.cpp:3\"", "src : 3",
    ] {
        v.push((a.into(), None, false));
    }
    // Paths that try to leave the root, or are spelled unusually: where they lead is left open, but never outside.
    for f in ["../outside.cpp", "../r2/only2.cpp", "src/../../outside.cpp", "/etc/passwd", "//etc/passwd", "./only1.cpp", "src//m.cpp", "src/./m.cpp", "src\\\\m.cpp", "", "/", ".", "..", "%2e%2e/outside.cpp", "..%2Foutside.cpp", "src/", "file:///etc/passwd"] {
        v.push((format!("\"{f}:1\""), Some((f.to_string(), 1)), true));
        v.push((format!("\"{f}:7\""), Some((f.to_string(), 7)), true));
    }
    let dir = &workspace().dir;
    v.push((format!("\"{dir}/outside.cpp:1\""), None, true));
    v.push((format!("\"{dir}/r1/only1.cpp:1\""), None, true));
    v
}
/// Where the declaration and its annotation stand; `ANN` is the annotation's value.
const PLACES: &[&str] = &[
    "declare void @f() !1\n!1 = ANN\n",
    "!1 = ANN\ndeclare void @f() !1\n",
    "!1 = ANN\n@g = @f\n!2 = 0\ndeclare void @f() !1\n@h = @f\n",
    "declare void @e() !1\n!1 = ANN\ndeclare void @f() !1\n",
    "declare void @f() !1\ndeclare void @e() !1\ndefine void @q() {\n  call @f() !1\n  call @e() !2\n}\n!2 = \"only1.cpp:9\"\n!1 = ANN\n",
    "declare pure int32 @f(int32 %x) = 0x12 !long::name1\n!long::name1 = ANN\n@q depends on @f, @e\n",
    "declare void @f() !1\ndefine void @f() {\n  ret\n}\n!1 = ANN\n",
    "!1 = ANN\ndeclare void @f()\n@e = @f\n",
    "!1 = ANN\ndefine void @f() {\n  call @f() !1\n}\n",
    "declare void @e() !2\ndeclare void @f() !1\n!2 = \"src/k.cpp:8\"\n!1 = ANN\n@e depends on @f\n",
    "declare void @f() !1\n!11 = ANN\n!1 = \"only1.cpp:2\"\n",
    "foo bar\ndeclare void @f() !1\n}\n!1 = ANN\nbroken\n",
    "# é𝒳\r\ndeclare void @é𝒳() !ƒ\r\n!ƒ = ANN\r\n@f = @é𝒳\r\n",
    "declare void @f() !1\ndeclare void @f() !1\n!1 = ANN\n",
    "declare void @f() !1\ndeclare void @f() !2\n!1 = ANN\n!2 = \"src/k.cpp:8\"\n",
];
pub fn c07() -> Space {
    let (a, r) = (annotations(), root_sets());
    let n = (a.len() * r.len() * PLACES.len()) as u64;
    Space::new(
        "external-definitions",
        format!("{} annotation texts x {} arrangements of declarations and annotations x {} sets of workspace roots; from every occurrence of every function", a.len(), PLACES.len(), r.len()),
        n,
        move |ctx, i| {
            let mut d = Dig(i);
            let (ann, place, roots) = (d.of(&a), *d.of(PLACES), d.of(&r));
            let t = place.replace("ANN", &ann.0);
            ctx.set_init(with_roots(roots));
            c07_case(ctx, &t, ann, roots).map_err(|e| format!("{e}\n--- document ---\n{t:?}\n--- roots {roots:?}"))
        },
    )
}
fn c07_case(ctx: &mut Ctx, t: &str, ann: &(String, Option<(String, u64)>, bool), roots: &[String]) -> Verdict {
    ctx.load(t)?;
    ctx.state(&format!("{t}{roots:?}"));
    let m = Model::new(t);
    if m.weird {
        ctx.c.outside += 1;
        return Ok(());
    }
    // Declared functions, their debug references, the annotations' values.
    let mut refs: Vec<(String, String)> = vec![];
    let mut vals: Vec<(String, String)> = vec![];
    for l in t.split(['\n', '\r']) {
        if let Some(x) = l.strip_prefix("declare ") {
            let name: String = x[x.find('@').unwrap()..].chars().take_while(|c| *c != '(').collect();
            if let Some(b) = x.find('!') {
                refs.push((name, x[b..].trim().to_string()));
            }
        } else if let Some((n, v)) = l.split_once(" = ").filter(|_| l.starts_with('!')) {
            vals.push((n.to_string(), v.to_string()));
        }
    }
    let known = [("\"only1.cpp:9\"", "only1.cpp", 9), ("\"src/k.cpp:8\"", "src/k.cpp", 8), ("\"only1.cpp:2\"", "only1.cpp", 2)];
    let mut n = 0;
    for o in &m.occs {
        let s = &m.syms[o.1];
        if s.kind != SymKind::Function && s.kind != SymKind::GlobalVar {
            continue;
        }
        let p = m.text.pos(o.0 .0);
        let g = goto(ctx, "definition", p)?;
        let mut ext: Vec<(String, u64)> = vec![];
        for (u, r) in &g.locs {
            if u == URI {
                continue;
            }
            let f = uri_path(u).ok_or_else(|| format!("external definition {u} is no file"))?;
            // Never outside the roots, whatever the annotation says.
            if !roots.iter().filter_map(|r| uri_path(r)).any(|r| f == r || f.starts_with(&format!("{}/", r.trim_end_matches('/')))) || f.split('/').any(|x| x == "..") {
                return Err(format!("definition of {} leads outside the workspace: {u}", s.name));
            }
            if !std::path::Path::new(&f).is_file() {
                return Err(format!("definition of {} leads to {u}, which is no file", s.name));
            }
            if r.0 > r.1 {
                return Err("inverted range".into());
            }
            ext.push((f, r.0 .0));
        }
        ext.sort();
        ext.dedup();
        let mut want: Vec<(String, u64)> = vec![];
        let mut unclear = false;
        if s.kind == SymKind::Function {
            for (_, r) in refs.iter().filter(|r| r.0 == s.name) {
                for (_, v) in vals.iter().filter(|v| v.0 == *r) {
                    if *v == ann.0 {
                        unclear |= ann.2;
                        if let Some((f, l)) = &ann.1 {
                            if let Some(f) = find_file(roots, f) {
                                want.push((f, l.saturating_sub(1)));
                            }
                        }
                    } else if let Some(k) = known.iter().find(|k| k.0 == v) {
                        if let Some(f) = find_file(roots, k.1) {
                            want.push((f, k.2 - 1));
                        }
                    }
                }
            }
        }
        want.sort();
        want.dedup();
        n += 1;
        if unclear {
            ctx.c.outside += 1;
            continue;
        }
        if ext != want {
            return Err(format!("external definitions of {} at {p:?}: {ext:?}, expected {want:?}", s.name));
        }
        // The definitions in the document are returned as ever.
        let mut here: Vec<Rng> = g.locs.iter().filter(|l| l.0 == URI).map(|l| l.1).collect();
        here.sort();
        if here != rngs(&m, &s.defs) {
            return Err(format!("definitions of {} in the document: [{}]", s.name, shows(&here)));
        }
        // Declarations are not affected.
        let dec = goto(ctx, "declaration", p)?.within(URI)?;
        if dec != rngs(&m, &s.decls) {
            return Err(format!("declarations of {}: [{}]", s.name, shows(&dec)));
        }
    }
    ctx.sample(|| json!({"document": t, "roots": roots}));
    ctx.compared(n);
    Ok(())
}
/// Declarations of every shape, of functions of every name, once and several times.
pub fn c07_declarations() -> Space {
    use crate::docs::{ARGS, MODS, NAMES, TYPES};
    const ADDR: &[&str] = &["", " = 0x12", " = 0xDEADbeef0123456789"];
    let sig = (MODS.len() * (TYPES.len() - 1) * (ARGS.len() - 1) * ADDR.len()) as u64;
    let ns: Vec<&str> = NAMES.iter().copied().filter(|n| n.chars().all(|c| c.is_alphanumeric() || c == '_' || c == ':') && !n.ends_with(':')).collect();
    let names = (ns.len() * 3) as u64;
    const MAX: u64 = 24;
    let shape = |ann: &str, decls: &[String]| format!("!1 = {ann}\n{}@u = {}\n", decls.concat(), decls.iter().map(|d| d[d.find('@').unwrap()..].split('(').next().unwrap().to_string()).collect::<Vec<_>>().join(", "));
    Space::new(
        "declarations",
        format!("{} lists of modifiers x {} types x {} lists of arguments x {} addresses; {} names of functions and annotations; up to {MAX} functions or annotations sharing one place", MODS.len(), TYPES.len() - 1, ARGS.len() - 1, ADDR.len(), ns.len()),
        sig + names + MAX * 4,
        move |ctx, i| {
            let ann: (String, Option<(String, u64)>, bool) = ("\"src/m.cpp:3\"".into(), Some(("src/m.cpp".into(), 3)), false);
            let rs = [root_uri("r2"), root_uri("r1")];
            let mut d = Dig(i);
            let t = if i < sig {
                let (m, t, a, x) = (*d.of(MODS), *d.of(&TYPES[..TYPES.len() - 1]), *d.of(&ARGS[..ARGS.len() - 1]), *d.of(ADDR));
                let a = a.replace('T', t);
                shape(&ann.0, &[format!("declare {m}{t} @f({a}){x} !1\n"), format!("declare void @other()\n")])
            } else if i < sig + names {
                d = Dig(i - sig);
                let n = *d.of(&ns);
                match d.take(3) {
                    0 => shape(&ann.0, &[format!("declare void @{n}() !1\n")]),
                    1 => format!("declare void @f() !{n}\n!{n} = {}\n@u = @f\n", ann.0),
                    _ => format!("declare void @{n}() !{n}\ndeclare void @{n}a() !{n}a\n!{n} = {}\n!{n}a = \"src/k.cpp:8\"\n@u = @{n}, @{n}a\n", ann.0),
                }
            } else {
                d = Dig(i - sig - names);
                let k = d.take(4);
                let n = d.take(MAX as usize) + 1;
                match k {
                    0 => shape(&ann.0, &(0..n).map(|j| format!("declare void @f{j}() !1\n")).collect::<Vec<_>>()),
                    1 => format!("{}{}", (0..n).map(|j| format!("!{j} = {}\n", ann.0)).collect::<String>(), (0..n).rev().map(|j| format!("declare void @f{j}() !{j}\n")).collect::<String>()),
                    2 => format!("{}{}@u = @f\n", (0..n).map(|j| format!("!{j} = {}\n", if j % 2 == 0 { &ann.0[..] } else { "\"src/k.cpp:8\"" })).collect::<String>(), (0..n).map(|j| format!("declare void @f() !{j}\n")).collect::<String>()),
                    _ => format!("{}declare void @f() !1\n!1 = {}\n{}", "# c\n\n".repeat(n * n), ann.0, "define void @q() {\n  call @f() !1\n}\n".repeat(n)),
                }
            };
            ctx.set_init(with_roots(&rs));
            c07_case(ctx, &t, &ann, &rs).map_err(|e| format!("{e}\n--- document ---\n{t:?}\n--- roots {rs:?}"))
        },
    )
}
/// Annotation texts of every shape.
pub fn c07_texts(max: u32) -> Space {
    const A: &[&str] = &["src/", "m.cpp", "k", "only1", ".cpp", "/", ":", "3", "0", "x", " ", "-", "é𝒳", "%20", "#", "\\"];
    let k = A.len() as u64;
    Space::new("texts", format!("every annotation text of 0 to {max} of {k} pieces (folders, separators, colons, digits)"), seq_count(k, 0, max), move |ctx, i| {
        let link: String = seq_at(k, 0, i).iter().map(|j| A[*j]).collect();
        let file = match link.split(':').collect::<Vec<_>>()[..] {
            [p, l] if !l.is_empty() && l.bytes().all(|c| c.is_ascii_digit()) => l.parse::<u32>().ok().map(|l| (p.to_string(), l as u64)),
            _ => None,
        };
        let odd = file.as_ref().map_or(false, |f| f.0.is_empty() || f.0.starts_with('/') || f.0.ends_with('/') || f.0.contains("//"));
        let rs = [root_uri("r2"), root_uri("r1")];
        let ann = (format!("\"{link}\""), file, odd);
        let t = PLACES[0].replace("ANN", &ann.0);
        ctx.set_init(with_roots(&rs));
        c07_case(ctx, &t, &ann, &rs).map_err(|e| format!("{e}\n--- document ---\n{t:?}\n--- roots {rs:?}"))
    })
}
/// Files that come and go while the document is open.
pub fn c07_files(max: u32) -> Space {
    // 0..3: toggle the file in root a, b, c; 4: ask.
    let k = 3u64;
    Space::new("files-come-and-go", format!("every sequence of up to {max} creations/removals of the file in three roots, asked after each"), seq_count(k, 0, max), move |ctx, i| {
        let seq = seq_at(k, 0, i);
        let dir = format!("{}/t{:?}", crate::engine::scratch(), std::thread::current().id()).replace(['(', ')'], "_");
        let roots: Vec<String> = ["a", "b", "c"].iter().map(|r| format!("{dir}/{r}")).collect();
        for r in &roots {
            let _ = std::fs::remove_dir_all(r);
            std::fs::create_dir_all(r).map_err(|e| format!("harness: {e}"))?;
        }
        let uris: Vec<String> = roots.iter().map(|r| format!("file://{r}")).collect();
        ctx.set_init(with_roots(&uris));
        ctx.state(&format!("{seq:?}"));
        ctx.load("declare void @f() !1\n!1 = \"x.cpp:5\"\n")?;
        let mut have = [false; 3];
        let mut n = 0;
        for step in std::iter::once(None).chain(seq.into_iter().map(Some)) {
            if let Some(j) = step {
                have[j] = !have[j];
                let f = format!("{}/x.cpp", roots[j]);
                if have[j] { std::fs::write(&f, "x") } else { std::fs::remove_file(&f) }.map_err(|e| format!("harness: {e}"))?;
            }
            let g = goto(ctx, "definition", (0, 14))?;
            let got: Vec<(Option<String>, u64)> = g.locs.iter().map(|l| (uri_path(&l.0), l.1 .0 .0)).collect();
            let want: Vec<(Option<String>, u64)> = (0..3).find(|j| have[*j]).map(|j| (Some(format!("{}/x.cpp", roots[j])), 4)).into_iter().collect();
            if got != want {
                return Err(format!("file present in roots {have:?}: {got:?}, expected {want:?}"));
            }
            n += 1;
        }
        ctx.compared(n);
        Ok(())
    })
}

// ---- C15 ----
/// One frame: JSON text, symbol shown, file and line.
#[derive(Clone)]
struct F {
    json: String,
    symbol: String,
    file: Option<(String, u64)>,
}
fn f(json: &str, symbol: &str, file: Option<(&str, u64)>) -> F {
    F { json: json.into(), symbol: symbol.into(), file: file.map(|x| (x.0.to_string(), x.1)) }
}
fn frames() -> Vec<F> {
    let long = "L".repeat(47);
    let long48 = "é".repeat(48);
    let mut v = vec![
        f(r#"["foo", "src/m.cpp:3"]"#, "foo", Some(("src/m.cpp", 3))),
        f(r#"["ATranslator::consume(int)", "hyper/ir/e.cpp:12"]"#, "ATranslator::consume(int)", Some(("hyper/ir/e.cpp", 12))),
        f(r#"["BTranslator::consume"]"#, "BTranslator::consume", None),
        f(r#"["ns::CTranslator::drivePipeline", "hyper/x.cpp:1"]"#, "ns::CTranslator::drivePipeline", Some(("hyper/x.cpp", 1))),
        f(r#"["DTranslator::produceMaterializedResult", "nowhere/z.cpp:9"]"#, "DTranslator::produceMaterializedResult", Some(("nowhere/z.cpp", 9))),
        f(r#"["ETranslator::deriveValue", ""]"#, "ETranslator::deriveValue", None),
        f(r#"["FTranslator::other", "x"]"#, "FTranslator::other", None),
        f(r#"["", "src/m.cpp:7"]"#, "m.cpp:7", Some(("src/m.cpp", 7))),
        f(r#"[]"#, "<invalid>", None),
        f(r#"["gen", "a/hyper/ir/e.cpp:4"]"#, "gen", Some(("a/hyper/ir/e.cpp", 4))),
        f(r#"["cg", "hyper/codegen/u.cpp:4"]"#, "cg", Some(("hyper/codegen/u.cpp", 4))),
        f(r#"["irx", "hyper/irx/e.cpp:5"]"#, "irx", Some(("hyper/irx/e.cpp", 5))),
        f(r#"["`a`*b*[c](d) <i>e</i> _f_", "src/m.cpp:0"]"#, "`a`*b*[c](d) <i>e</i> _f_", Some(("src/m.cpp", 0))),
        f(r#"["x\ny\r\n* `z`", "src/k.cpp:2"]"#, "x\ny\r\n* `z`", Some(("src/k.cpp", 2))),
        f(r#"["é𝒳�\u0060\\", "é𝒳.cpp:2"]"#, "é𝒳�`\\", Some(("é𝒳.cpp", 2))),
        f(r#"[null, null]"#, "<invalid>", None),
        f(r#"[1, "src/m.cpp"]"#, "m.cpp", None),
        f(r#"["Translator", "Translator::consume:1"]"#, "Translator", None),
    ];
    v.push(F { json: format!("[\"{long}\", \"src/m.cpp:3\"]"), symbol: long, file: Some(("src/m.cpp".into(), 3)) });
    v.push(F { json: format!("[\"{long48}\", \"src/m.cpp:3\"]"), symbol: long48, file: Some(("src/m.cpp".into(), 3)) });
    v.push(f(r#"["translator::consume aTranslator::cons", "hyper/codegenx:1"]"#, "translator::consume aTranslator::cons", Some(("hyper/codegenx", 1))));
    v.push(f(r#"["only1", "only1.cpp:4294967295"]"#, "only1", Some(("only1.cpp", 4294967295))));
    v.push(f(r#"["win", "hyper\\codegen\\a.cpp:3"]"#, "win", Some(("hyper\\codegen\\a.cpp", 3))));
    v.push(f(r#"["", "a/b\\c.cpp:3"]"#, "c.cpp:3", Some(("a/b\\c.cpp", 3))));
    v.push(f(r#"["mix", "a\\b/c.cpp:3"]"#, "mix", Some(("a\\b/c.cpp", 3))));
    v.push(f(r#"["three:part", "a:b:3"]"#, "three:part", None));
    v.push(f(r#""just a string""#, "<invalid>", None));
    v.push(f(r#"{"0": "obj"}"#, "<invalid>", None));
    v
}
fn relevant(fs: &[F]) -> Option<usize> {
    for p in ["Translator::consume", "Translator::produceMaterializedResult", "Translator::drivePipeline", "Translator::deriveValue", "Translator::"] {
        if let Some(i) = fs.iter().position(|f| f.symbol.contains(p)) {
            return Some(i);
        }
    }
    fs.iter().position(|f| f.file.as_ref().map_or(false, |(p, _)| !p.contains("hyper/ir/") && !p.contains("hyper/codegen")))
}
/// Does this Markdown line show the frame?
fn shows_frame(line: &str, fr: &F, roots: &[String]) -> Verdict {
    let bad = |m: &str| Err(format!("frame {} is shown as {line:?}: {m}", fr.json));
    let parts: Vec<&str> = line.split('`').collect();
    let [_, code, rest] = parts[..] else { return bad("the symbol is not one code span") };
    if code.chars().count() != fr.symbol.chars().count() {
        return bad("symbol of another length");
    }
    for (c, o) in code.chars().zip(fr.symbol.chars()) {
        let keep = o.is_alphanumeric() || o == ' ' || ".,:+-=/*<>_".contains(o);
        if keep && c != o {
            return bad(&format!("{o:?} shown as {c:?}"));
        }
        if !keep && (c == '`' || c == '\n' || c == '\r' || c == '\\') {
            return bad(&format!("{o:?} is not made harmless"));
        }
    }
    match &fr.file {
        None => {
            if !rest.trim().is_empty() {
                return bad("a place although the frame has none");
            }
        }
        Some((p, l)) => {
            let short = p.rsplit(['/', '\\']).next().unwrap();
            let text = format!("{short}:{l}");
            match find_file(roots, p) {
                None => {
                    if rest.contains("](") || !rest.ends_with(&text) || rest.trim_end_matches(&text).contains(['/', '\\']) {
                        return bad(&format!("expected {text} without link"));
                    }
                }
                Some(file) => {
                    let Some(x) = rest.find(&format!("[{text}](")) else { return bad(&format!("expected {text} linked")) };
                    let Some(url) = rest[x + text.len() + 3..].strip_suffix(')') else { return bad("malformed link") };
                    if uri_path(url) != Some(file) {
                        return bad("link to another file");
                    }
                    let frag: String = url.split('#').nth(1).unwrap_or("").chars().filter(|c| c.is_ascii_digit()).collect();
                    if frag != l.to_string() {
                        return bad("link to another line");
                    }
                }
            }
        }
    }
    Ok(())
}
fn check_hint(h: &doc::Hint, fs: &[F], roots: &[String]) -> Verdict {
    let parts = h.raw["label"].as_array().cloned().unwrap_or_default();
    let md = |p: &Value| -> Option<String> {
        match p.get("tooltip")? {
            Value::String(s) => Some(s.clone()),
            t => t["value"].as_str().map(|s| s.to_string()),
        }
    };
    let tips: Vec<(String, String)> = parts.iter().filter_map(|p| Some((p["value"].as_str()?.to_string(), md(p)?))).collect();
    let rel = relevant(fs);
    // The full list is the last one.
    let Some((_, full)) = tips.last() else { return Err("hint without tooltip".into()) };
    let lines: Vec<&str> = if fs.is_empty() { vec![] } else { full.split('\n').collect() };
    if lines.len() != fs.len() || (fs.is_empty() && !full.trim().is_empty()) {
        return Err(format!("{} frames are shown in {} lines: {full:?}", fs.len(), lines.len()));
    }
    for (l, fr) in lines.iter().zip(fs) {
        shows_frame(l, fr, roots)?;
    }
    match (rel, &tips[..]) {
        (None, [_]) => {}
        (Some(i), [(label, tip), _]) => {
            let sym = &fs[i].symbol;
            let n = sym.chars().count();
            let ok = if n < 48 {
                label == sym
            } else {
                let short: String = label.chars().take(40).collect();
                label.chars().count() <= 50 && short.chars().count() == 40 && sym.starts_with(&short) && (label == sym || label.ends_with('…') && sym.starts_with(label.trim_end_matches('…')))
            };
            if !ok {
                return Err(format!("the label names {label:?}, the relevant frame is {sym:?}"));
            }
            if h.text.find(label.as_str()) != Some(0) {
                return Err(format!("the label {:?} does not start with the relevant frame", h.text));
            }
            if tip.contains('\n') {
                return Err(format!("tooltip of the relevant frame: {tip:?}"));
            }
            shows_frame(tip, &fs[i], roots)?;
        }
        (r, t) => return Err(format!("relevant frame {:?}, but the hint's label is {:?} with {} tooltips", r.map(|i| &fs[i].symbol), h.text, t.len())),
    }
    Ok(())
}
/// Documents in which backtraces are used; `ANN` is replaced.
const BT_DOCS: &[(&str, usize)] = &[
    ("!1 = ANN\ndefine void @f() {\n  ret !1\n}\n", 1),
    ("define void @f(int32 %x) {\na:\n  int32 %y = add %x !1\n  foo\n  br a !1\nb:\n  switch int32 %x, default=a, int32 0 label=b !1\n}\n!1 = ANN\n", 3),
    ("declare void @g() !1\ndefine void @f() {\n  ret !1\n}\ndefine void @h() {\nx:\n  br x !1\n  foo !2\n}\n!2 = 0\n!1 = ANN\n", 2),
    ("# 𝒳é\r\n!ƒ = ANN\r\ndefine void @é𝒳() {\r\n  call @𝒴(\"𝒳\") !ƒ # c\r\n}\r\n", 1),
];
fn c15_case(ctx: &mut Ctx, t: &str, uses: usize, fs: Option<&[F]>, roots: &[String]) -> Verdict {
    ctx.set_init(with_roots(roots));
    ctx.load(t)?;
    ctx.state(&format!("{t}{roots:?}"));
    c15_ask(ctx, t, uses, fs, roots)
}
/// The hints of the document that is open.
fn c15_ask(ctx: &mut Ctx, t: &str, uses: usize, fs: Option<&[F]>, roots: &[String]) -> Verdict {
    let m = Model::new(t);
    if m.weird {
        ctx.c.outside += 1;
        return Ok(());
    }
    let mut hs = hints(ctx, &m)?;
    let mut n = 0;
    // Debug references of instructions.
    let refs: Vec<Pos> = m
        .occs
        .iter()
        .filter(|o| {
            let s = &m.syms[o.1];
            s.kind == SymKind::Dbg && o.2 == Role::Use && (s.name == "!1" || s.name == "!ƒ") && m.bodies.iter().any(|b| b.range.0 < o.0 .0 && o.0 .1 < b.range.1)
        })
        .map(|o| m.text.pos(o.0 .1))
        .collect();
    if refs.len() != uses {
        return Err(format!("harness: {} references, expected {uses}", refs.len()));
    }
    for p in &refs {
        let mine = doc::take(&mut hs, *p);
        match (fs, &mine[..]) {
            (None, []) => {}
            (None, _) => return Err(format!("hint {:?} for an annotation without backtrace", mine[0].text)),
            (Some(fs), [h]) => check_hint(h, fs, roots)?,
            (Some(_), x) => return Err(format!("{} hints at {p:?}", x.len())),
        }
        n += 1;
    }
    // Nothing else but structural hints.
    let dbg: Vec<Pos> = m.toks.iter().filter(|t| t.k == K::Dbg).map(|t| m.text.pos(t.e)).collect();
    if let Some(h) = hs.iter().find(|h| dbg.contains(&h.pos)) {
        return Err(format!("stray hint {:?}", h.text));
    }
    ctx.sample(|| json!({"document": t, "roots": roots}));
    ctx.compared(n);
    Ok(())
}
pub fn c15(max: u32) -> Space {
    let fr = frames();
    let k = fr.len() as u64;
    let roots: Vec<Vec<String>> = vec![vec![], vec![root_uri("r2"), root_uri("r1")]];
    Space::new("backtraces", format!("every list of up to {max} of {k} frames x {} documents x {} workspaces", BT_DOCS.len(), roots.len()), seq_count(k, 0, max) * 8, move |ctx, i| {
        let (d, rs) = (BT_DOCS[(i % 4) as usize], &roots[(i / 4 % 2) as usize]);
        let fs: Vec<F> = seq_at(k, 0, i / 8).into_iter().map(|j| fr[j].clone()).collect();
        let ann = format!("{{\"backtrace\": [{}]}}", fs.iter().map(|f| f.json.clone()).collect::<Vec<_>>().join(", "));
        let t = d.0.replace("ANN", &ann);
        c15_case(ctx, &t, d.1, Some(&fs), rs).map_err(|e| format!("{e}\n--- document ---\n{t:?}\n--- roots {rs:?}"))
    })
}
/// Files that come and go while the document is open.
pub fn c15_files(max: u32) -> Space {
    let k = 3u64;
    Space::new("files-come-and-go", format!("every sequence of up to {max} creations/removals of a frame's file in three roots, asked after each, the document opened again in between or not"), seq_count(k, 0, max) * 2, move |ctx, i| {
        let (seq, reopen) = (seq_at(k, 0, i / 2), i % 2 == 1);
        let dir = format!("{}/b{:?}", crate::engine::scratch(), std::thread::current().id()).replace(['(', ')'], "_");
        let roots: Vec<String> = ["a", "b", "c"].iter().map(|r| format!("{dir}/{r}")).collect();
        for r in &roots {
            let _ = std::fs::remove_dir_all(r);
            std::fs::create_dir_all(r).map_err(|e| format!("harness: {e}"))?;
        }
        let uris: Vec<String> = roots.iter().map(|r| format!("file://{r}")).collect();
        let fs = [f(r#"["foo", "x.cpp:5"]"#, "foo", Some(("x.cpp", 5))), f(r#"["bar", "y.cpp:5"]"#, "bar", Some(("y.cpp", 5)))];
        let ann = format!("{{\"backtrace\": [{}, {}]}}", fs[0].json, fs[1].json);
        let t = BT_DOCS[1].0.replace("ANN", &ann);
        c15_case(ctx, &t, BT_DOCS[1].1, Some(&fs), &uris)?;
        ctx.state(&format!("{seq:?} {reopen}"));
        let mut have = [false; 3];
        for j in seq {
            have[j] = !have[j];
            let f = format!("{}/x.cpp", roots[j]);
            if have[j] { std::fs::write(&f, "x") } else { std::fs::remove_file(&f) }.map_err(|e| format!("harness: {e}"))?;
            if reopen {
                ctx.load(&t)?;
            }
            c15_ask(ctx, &t, BT_DOCS[1].1, Some(&fs), &uris).map_err(|e| format!("file present in roots {have:?}: {e}"))?;
        }
        Ok(())
    })
}
/// Symbols of every shape.
pub fn c15_symbols(max: u32) -> Space {
    const A: &[(&str, &str)] = &[
        ("a", "a"), ("`", "`"), ("*", "*"), ("_", "_"), ("\\n", "\n"), ("\\r", "\r"), ("\\\\", "\\"), ("[", "["), ("](", "]("), ("<", "<"), (" ", " "), ("é", "é"), ("𝒳", "𝒳"), ("\\u2028", "\u{2028}"), ("&", "&"), ("#", "#"), ("|", "|"), ("\\t", "\t"),
        ("Translator::", "Translator::"), ("~", "~"), ("$", "$"), ("0", "0"),
    ];
    let k = A.len() as u64;
    Space::new("symbols", format!("every symbol of 1 to {max} of {k} pieces, incl. Markdown characters, line breaks and non-ASCII ones"), seq_count(k, 1, max), move |ctx, i| {
        let s = seq_at(k, 1, i);
        let json: String = s.iter().map(|j| A[*j].0).collect();
        let sym: String = s.iter().map(|j| A[*j].1).collect();
        let fs = [F { json: format!("[\"{json}\", \"src/m.cpp:3\"]"), symbol: sym, file: Some(("src/m.cpp".into(), 3)) }, f("[\"zz\"]", "zz", None)];
        let t = BT_DOCS[0].0.replace("ANN", &format!("{{\"backtrace\": [{}, {}]}}", fs[0].json, fs[1].json));
        c15_case(ctx, &t, 1, Some(&fs), &[]).map_err(|e| format!("{e}\n--- document ---\n{t:?}"))
    })
}
/// Symbols of every length around the limit of the label, of one- to four-byte characters.
pub fn c15_lengths(max: u64) -> Space {
    let ns = sizes(max, 20000);
    Space::new("lengths", format!("symbols of 1 to {max} and {} lengths up to 20000 characters of 1, 2, 3 and 4 bytes, and mixed", ns.len() as u64 - max), ns.len() as u64 * 5, move |ctx, i| {
        let n = ns[(i / 5) as usize];
        let pat: &[char] = match i % 5 {
            0 => &['a'],
            1 => &['é'],
            2 => &['中'],
            3 => &['𝒳'],
            _ => &['a', 'é', '中', '𝒳'],
        };
        let sym: String = (0..n).map(|j| pat[j % pat.len()]).collect();
        let fs = [F { json: format!("[\"{sym}\", \"x.cpp:3\"]"), symbol: sym, file: Some(("x.cpp".into(), 3)) }];
        let t = BT_DOCS[1].0.replace("ANN", &format!("{{\"backtrace\": [{}]}}", fs[0].json));
        c15_case(ctx, &t, 3, Some(&fs), &[]).map_err(|e| format!("{e}\n--- document ---\n{t:?}"))
    })
}
/// All sizes up to `max`, and both sides of every likely limit up to `top`.
fn sizes(max: u64, top: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=max as usize).collect();
    for l in [100, 128, 200, 250, 256, 300, 400, 500, 512, 600, 800, 1000, 1024, 1500, 2000, 2048, 3000, 4000, 4096, 5000, 8192, 10000, 16384] {
        v.extend([l - 1, l, l + 1].iter().filter(|n| **n > max as usize && **n <= top));
    }
    v
}
/// Backtraces of every length, with the relevant frame at every place.
pub fn c15_many(max: u64) -> Space {
    let ns = sizes(max, 1100);
    Space::new("many-frames", format!("backtraces of 1 to {max} and {} numbers up to 1100 of frames; the relevant one is the first, second, middle, last but one, last, or none, by its symbol or its place", ns.len() as u64 - max), ns.len() as u64 * 12, move |ctx, i| {
        let mut d = Dig(i);
        let (place, by) = (d.take(6), d.take(2));
        let n = ns[d.0 as usize];
        let at = [Some(0), (n > 1).then_some(1), Some(n / 2), n.checked_sub(2), Some(n - 1), None][place];
        let fs: Vec<F> = (0..n)
            .map(|j| match (Some(j) == at, by) {
                (true, 0) => f(&format!("[\"hyper::Translator::g{j}\", \"hyper/ir/t.cpp:{}\"]", j + 1), &format!("hyper::Translator::g{j}"), Some(("hyper/ir/t.cpp", j as u64 + 1))),
                (true, _) => f(&format!("[\"g{j}\", \"src/m.cpp:{}\"]", j + 1), &format!("g{j}"), Some(("src/m.cpp", j as u64 + 1))),
                _ => f(&format!("[\"f{j}\", \"hyper/ir/s{j}.cpp:{}\"]", j + 2), &format!("f{j}"), Some((&format!("hyper/ir/s{j}.cpp"), j as u64 + 2))),
            })
            .collect();
        let t = BT_DOCS[0].0.replace("ANN", &format!("{{\"backtrace\": [{}]}}", fs.iter().map(|f| f.json.clone()).collect::<Vec<_>>().join(", ")));
        let rs = [root_uri("r2"), root_uri("r1")];
        c15_case(ctx, &t, 1, Some(&fs), &rs).map_err(|e| format!("{e}\n--- document ---\n{t:?}"))
    })
}
/// Places of frames of every shape.
pub fn c15_links(max: u32) -> Space {
    const A: &[(&str, &str)] = &[("src/", "src/"), ("m.cpp", "m.cpp"), ("k", "k"), ("/", "/"), ("\\\\", "\\"), (":", ":"), ("3", "3"), ("0", "0"), ("x", "x"), (" ", " "), ("hyper/ir/", "hyper/ir/")];
    let k = A.len() as u64;
    Space::new("links", format!("every place of a frame of 1 to {max} of {k} pieces (folders, separators of both kinds, colons, digits), with and without a symbol"), seq_count(k, 1, max) * 2, move |ctx, i| {
        let s = seq_at(k, 1, i / 2);
        let json: String = s.iter().map(|j| A[*j].0).collect();
        let link: String = s.iter().map(|j| A[*j].1).collect();
        let file = match link.split(':').collect::<Vec<_>>()[..] {
            [p, l] if !l.is_empty() && l.bytes().all(|c| c.is_ascii_digit()) => l.parse::<u32>().ok().map(|l| (p.to_string(), l as u64)),
            _ => None,
        };
        let short = link.rsplit(['/', '\\']).next().unwrap().to_string();
        let odd = file.as_ref().map_or(false, |f| f.0.is_empty() || f.0.starts_with('/') || f.0.ends_with(['/', '\\']) || f.0.contains("//"));
        if odd || (i % 2 == 1 && short.is_empty()) {
            ctx.c.outside += 1;
            return Ok(());
        }
        let (sj, symbol) = if i % 2 == 0 { ("s", "s".to_string()) } else { ("", short) };
        let fs = [F { json: format!("[\"{sj}\", \"{json}\"]"), symbol, file }];
        let rs = [root_uri("r2"), root_uri("r1")];
        let t = BT_DOCS[0].0.replace("ANN", &format!("{{\"backtrace\": [{}]}}", fs[0].json));
        c15_case(ctx, &t, 1, Some(&fs), &rs).map_err(|e| format!("{e}\n--- document ---\n{t:?}"))
    })
}
/// Instructions of every shape that refer to a backtrace.
pub fn c15_instructions() -> Space {
    use crate::docs::INSTRS;
    let base: Vec<String> = INSTRS.iter().map(|i| i.split(" !").next().unwrap().to_string()).chain(["ret", "ret int32 %x", "int32 %v = call @g(int32 %x)", "store \"a # !1 b\", 1", "foo [1, {2}] <3>", "int64 %v = load ptr %p", "void %v = nop"].map(String::from)).collect();
    let k = base.len() as u64;
    Space::new("instructions", format!("every pair of {k} instructions with a reference to a backtrace, with 0 to 2 references of their own, in labelled and unlabelled blocks of two functions"), k * k * 3 * 2, move |ctx, i| {
        let mut d = Dig(i);
        let (a, b, refs, lab) = (d.of(&base).clone(), d.of(&base).clone(), d.take(3), d.take(2));
        let (ra, rb) = (if refs != 1 { " !1" } else { "" }, if refs != 0 { " !1" } else { "" });
        let l = if lab == 1 { "a:\n" } else { "" };
        let fs = [f(r#"["foo", "src/m.cpp:3"]"#, "foo", Some(("src/m.cpp", 3))), f("[\"zz\"]", "zz", None)];
        let t = format!("declare void @g() !1\ndefine void @f(int32 %x, int1 %c) {{\n{l}  {a}{ra}\nb:\n  {b}{rb}\n}}\ndefine void @h(int32 %x, int1 %c) {{\n{l}  {b}{ra}\n  bar !2\n}}\n!1 = {{\"backtrace\": [{}, {}]}}\n!2 = 0\n", fs[0].json, fs[1].json);
        let uses = [ra, rb, ra].iter().filter(|x| !x.is_empty()).count();
        c15_case(ctx, &t, uses, Some(&fs), &[]).map_err(|e| format!("{e}\n--- document ---\n{t:?}"))
    })
}
/// Annotations of every other shape.
pub fn c15_shapes() -> Space {
    let bt = r#"[["foo", "src/m.cpp:3"]]"#;
    let foo = f(r#"["foo", "src/m.cpp:3"]"#, "foo", Some(("src/m.cpp", 3)));
    let v: Vec<(String, Option<Vec<F>>)> = vec![
        ("0".into(), None),
        ("\"src/m.cpp:3\"".into(), None),
        ("{}".into(), None),
        ("[]".into(), None),
        (bt.into(), None),
        ("{\"backtrace\": 1}".into(), None),
        ("{\"backtrace\": \"x\"}".into(), None),
        ("{\"backtrace\": {}}".into(), None),
        ("{\"backtrace\": null}".into(), None),
        ("{\"Backtrace\": []}".into(), None),
        (format!("{{\"backtrac\": {bt}}}"), None),
        (format!("{{\"x\": {{\"backtrace\": {bt}}}}}"), None),
        (format!("{{\"backtrace\": {bt}"), None),
        (format!("{{\"backtrace\": {bt}}} 1"), None),
        (format!("{{\"backtrace\" {bt}}}"), None),
        ("{\"backtrace\": [}".into(), None),
        ("nonsense".into(), None),
        ("@f".into(), None),
        ("{\"backtrace\": []}".into(), Some(vec![])),
        (format!("{{\"backtrace\": {bt}}}"), Some(vec![foo.clone()])),
        (format!("{{\"a\": 1, \"backtrace\": {bt}, \"z\": [1, \"x\"]}}"), Some(vec![foo.clone()])),
        (format!("{{ \"backtrace\" :{bt} }}"), Some(vec![foo.clone()])),
        (format!("{{\"backtrace\": {bt}, \"é𝒳\": \"𝒳\"}}"), Some(vec![foo.clone()])),
        (format!("{{\"backtrace\": [[\"foo\", \"src/m.cpp:3\", 7, \"x\"]]}}"), Some(vec![foo.clone()])),
        (format!("{{\"backtrace\":{bt}}}\t"), Some(vec![foo.clone()])),
        (format!("{{\"backtrace\": {bt}}} # comment"), Some(vec![foo])),
        ("{\"backtrace\": [1, null, true, [[\"x\"]]]}".into(), Some(vec![f("1", "<invalid>", None), f("null", "<invalid>", None), f("true", "<invalid>", None), f("[[x]]", "<invalid>", None)])),
    ];
    let roots = root_sets();
    let n = (v.len() * BT_DOCS.len() * roots.len()) as u64;
    Space::new("shapes", format!("{} annotation shapes x {} documents x {} workspaces", v.len(), BT_DOCS.len(), roots.len()), n, move |ctx, i| {
        let mut d = Dig(i);
        let ((ann, fs), doc, rs) = (d.of(&v), d.of(BT_DOCS), d.of(&roots));
        let t = doc.0.replace("ANN", ann);
        c15_case(ctx, &t, doc.1, fs.as_deref(), rs).map_err(|e| format!("{e}\n--- document ---\n{t:?}\n--- roots {rs:?}"))
    })
}

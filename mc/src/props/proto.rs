//! Properties of whole sessions: survival, histories, negotiation.
use super::doc;
use crate::docs;
use crate::engine::{seq_at, seq_count, Ctx, Dig, Space, Verdict, URI};
use crate::lsp::*;
use crate::model::*;
use crate::session::{change_params, default_init, doc_params, open_params, pos_params, Session};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;

fn range(a: Pos, b: Pos) -> Value {
    json!({"start": {"line": a.0, "character": a.1}, "end": {"line": b.0, "character": b.1}})
}
/// All requests the server offers, for the document `uri` and position `p`.
pub fn requests_at(uri: &str, p: Pos) -> Vec<(&'static str, Value)> {
    let pp = || pos_params(uri, p.0 as usize, p.1 as usize);
    let mut refs = pp();
    refs["context"] = json!({"includeDeclaration": p.1 % 2 == 0});
    let mut rn = pp();
    rn["newName"] = json!("zz");
    let mut rel = pp();
    rel["newName"] = json!("+1");
    vec![
        ("textDocument/definition", pp()),
        ("textDocument/declaration", pp()),
        ("textDocument/references", refs),
        ("textDocument/prepareRename", pp()),
        ("textDocument/rename", rn),
        ("textDocument/rename", rel),
        ("textDocument/codeAction", json!({"textDocument": {"uri": uri}, "range": range(p, p), "context": {"diagnostics": []}})),
    ]
}
pub fn requests_doc(uri: &str) -> Vec<(&'static str, Value)> {
    vec![
        ("textDocument/documentSymbol", doc_params(uri)),
        ("textDocument/semanticTokens/full", doc_params(uri)),
        ("textDocument/foldingRange", doc_params(uri)),
        ("textDocument/inlayHint", json!({"textDocument": {"uri": uri}, "range": range((0, 0), (9999, 0))})),
        ("textDocument/codeLens", doc_params(uri)),
    ]
}

// ---- C01 ----
/// Sends all of them before reading any answer; each must be answered exactly once.
fn volley(ctx: &mut Ctx, reqs: Vec<(&'static str, Value)>) -> Verdict {
    let s = ctx.server()?;
    let mut ids = vec![];
    let n = reqs.len();
    for (m, p) in reqs {
        let id = s.fresh_id();
        ids.push((id, m));
        s.feed(json!({"jsonrpc": "2.0", "id": id, "method": m, "params": p}));
    }
    s.run()?;
    // Whatever is shown to the user meanwhile is acknowledged.
    loop {
        let rs = s.take_server_requests();
        if rs.is_empty() {
            break;
        }
        for r in rs {
            s.reply(&r["id"], json!({}))?;
        }
    }
    let mut seen: HashMap<i64, u32> = HashMap::new();
    for m in s.inbox.drain(..) {
        if m.get("method").is_some() {
            continue;
        }
        let id = m["id"].as_i64().ok_or_else(|| format!("answer without id: {m}"))?;
        if m.get("result").is_some() == m.get("error").is_some() {
            return Err(format!("answer with neither or both of result and error: {m}"));
        }
        *seen.entry(id).or_default() += 1;
    }
    for (id, m) in &ids {
        match seen.remove(id) {
            Some(1) => {}
            Some(k) => return Err(format!("{k} answers to one {m}")),
            None => return Err(format!("no answer to {m}")),
        }
    }
    if let Some(k) = seen.keys().next() {
        return Err(format!("answer to an unknown request {k}"));
    }
    s.sent.clear();
    ctx.compared(n as u64);
    Ok(())
}
/// Every request at every position of the document, and the commands of its functions.
pub fn c01_doc(ctx: &mut Ctx, t: &str, all: bool) -> Verdict {
    ctx.load(t)?;
    let m = Model::new(t);
    volley(ctx, requests_doc(URI))?;
    let mut ps = if all { m.positions() } else { m.key_positions() };
    let l = m.text.lines.len() as u64;
    ps.extend([(l, 0), (l + 1, 1), (0, 1 << 31), (u32::MAX as u64, u32::MAX as u64)]);
    for p in ps {
        volley(ctx, requests_at(URI, p))?;
    }
    let mut names: Vec<&str> = m.toks.iter().filter(|t| t.k == K::Global).map(|t| t.t.as_str()).collect();
    names.sort();
    names.dedup();
    names.truncate(3);
    for n in names {
        let (_, _) = doc::execute(ctx, "visualize-cfg", json!([URI, n]))?;
    }
    ctx.sample(|| json!({"document": t.chars().take(300).collect::<String>()}));
    Ok(())
}
const ODD_URIS: &[&str] = &[
    URI, "file:///mc/never-opened.hir", "untitled:Untitled-1", "file:///a%20b/%C3%A9.hir", "git:/mc/doc.hir?x#y", "http://host:1/x", "mailto:a@b", "file:///",
    "data:text/plain,hi", "file://server/share/x.hir", "file:///mc/doc.hir#frag", "file:///mc/doc.hir?", "a:", "vscode-notebook-cell:/x#é",
];
const MODULE: &str = "@g1 = 1\ndeclare void @f1() !1\n!1 = \"x.cpp:3\"\n!2 = {\"backtrace\": [[\"F\"]]}\ndefine void @f2(int32 %v1) {\nb1:\n  int32 %v2 = add int32 %v1, @g1 !2\n  br b1\n}\n";
fn module_positions() -> Vec<Pos> {
    // Each kind once, and nothing.
    vec![(0, 1), (1, 14), (2, 1), (4, 22), (5, 0), (0, 4)]
}
const NAME_ALPHABET: &[&str] = &["a", "1", "+", "-", "@", "%", "!", ":", "_", " ", "é", "𝒳", "\n", "\"", "\u{0}", "9223372036854775807", "br", "Z"];

pub fn c01_names(max: u32) -> Space {
    let k = NAME_ALPHABET.len() as u64;
    let n = seq_count(k, 0, max);
    Space::new("new-names", format!("rename of every symbol kind to every sequence of up to {max} pieces of {NAME_ALPHABET:?}"), n, move |ctx, i| {
        let name: String = seq_at(k, 0, i).into_iter().map(|j| NAME_ALPHABET[j]).collect();
        load_module(ctx)?;
        ctx.state(&name);
        let rs = module_positions()
            .into_iter()
            .map(|p| {
                let mut q = pos_params(URI, p.0 as usize, p.1 as usize);
                q["newName"] = json!(name);
                ("textDocument/rename", q)
            })
            .collect();
        ctx.sample(|| json!({"new_name": name}));
        volley(ctx, rs)?;
        alive(ctx)
    })
}
/// Names around every kind of character.
fn char_names(c: char) -> Vec<String> {
    ["C", "C1", "aC", "aCb", "+C", "+1C", "C-1"].iter().map(|t| t.replace('C', &c.to_string())).collect()
}
pub fn c01_characters() -> Space {
    let v = docs::class_bounds();
    Space::new("new-name-characters", format!("rename of every symbol kind to 7 names around each of {} characters (all of Latin-1, both sides of every change of character class)", v.len()), v.len() as u64, move |ctx, i| {
        load_module(ctx)?;
        let mut rs = vec![];
        for name in char_names(v[i as usize]) {
            ctx.state(&name);
            for p in module_positions() {
                let mut q = pos_params(URI, p.0 as usize, p.1 as usize);
                q["newName"] = json!(name);
                rs.push(("textDocument/rename", q));
            }
        }
        volley(ctx, rs)?;
        alive(ctx)
    })
}
pub fn c10_characters(all: bool) -> Space {
    let v: Vec<char> = if all { ('\0'..=char::MAX).collect() } else { docs::class_bounds() };
    const KINDS: [SymKind; 5] = [SymKind::GlobalVar, SymKind::Function, SymKind::Dbg, SymKind::Local, SymKind::Label];
    let n = v.len() as u64;
    Space::new("new-name-characters", format!("each of 5 symbol kinds renamed to the character alone, and to it at the start, in the middle and at the end of a name, for {} characters", if all { "all Unicode".to_string() } else { format!("{n} boundary") }), n, move |ctx, i| {
        let c = v[i as usize];
        for kind in KINDS {
            for t in ["C", "aC", "aCb", "Ca"] {
                doc::c10_name(ctx, kind, &t.replace('C', &c.to_string()))?;
            }
        }
        Ok(())
    })
}
thread_local! {
    static LOADED: RefCell<u32> = const { RefCell::new(0) };
}
/// Opens the fixed module; every so often on a fresh server.
fn load_module(ctx: &mut Ctx) -> Verdict {
    ctx.load(MODULE)?;
    Ok(())
}
/// The server still answers, and correctly.
fn alive(ctx: &mut Ctx) -> Verdict {
    let v = ask_ok(ctx, "textDocument/documentSymbol", doc_params(URI))?;
    if v.as_array().map_or(0, |a| a.len()) != 2 {
        return Err(format!("after this request the outline is {v}"));
    }
    Ok(())
}
pub fn c01_uris() -> Space {
    let pos: Vec<Pos> = vec![(0, 0), (0, 1), (7, 3), (u32::MAX as u64, 0), (0, u32::MAX as u64), (u32::MAX as u64, u32::MAX as u64)];
    let n = (ODD_URIS.len() * ODD_URIS.len() * 2 * pos.len()) as u64;
    Space::new("documents", format!("every request about every (unopened or opened) document of {ODD_URIS:?}, at {} positions, while another one is open", pos.len()), n, move |ctx, i| {
        let mut d = Dig(i);
        let (asked, opened, init2, p) = (*d.of(ODD_URIS), *d.of(ODD_URIS), d.take(2), *d.of(&pos));
        ctx.set_init(if init2 == 1 { doc::init_lazy() } else { default_init() });
        ctx.reset();
        load_module(ctx)?;
        ctx.state(&format!("{asked} {opened} {p:?}"));
        if opened != URI {
            ctx.server()?.open(opened, MODULE, 1)?;
        }
        let mut rs = requests_doc(asked);
        rs.extend(requests_at(asked, p));
        volley(ctx, rs)?;
        let (_, _) = doc::execute(ctx, "visualize-cfg", json!([asked, "@f2"]))?;
        ctx.server()?.notify("textDocument/didClose", doc_params(asked))?;
        volley(ctx, requests_doc(asked))?;
        alive(ctx)
    })
}
fn arg_shapes() -> Vec<Value> {
    vec![json!(null), json!(true), json!(0), json!(-1), json!(1.5), json!(""), json!(URI), json!("@f2"), json!("@f1"), json!("é𝒳"), json!("not a uri"), json!([]), json!([URI, "@f2"]), json!({}), json!({"uri": URI})]
}
pub fn c01_commands() -> Space {
    let cmds = ["visualize-cfg", "", "visualize-CFG", "é", "visualize-cfg "];
    let sh = arg_shapes();
    let k = sh.len() as u64;
    let per = seq_count(k, 0, 3) + 1;
    Space::new("commands", format!("{} command names with no, or every list of up to 3 of {k} arguments", cmds.len()), per * cmds.len() as u64, move |ctx, i| {
        let cmd = cmds[(i % cmds.len() as u64) as usize];
        let a = i / cmds.len() as u64;
        load_module(ctx)?;
        let mut q = json!({ "command": cmd });
        if a > 0 {
            q["arguments"] = seq_at(k, 0, a - 1).into_iter().map(|j| sh[j].clone()).collect();
        }
        ctx.state(&q.to_string());
        ctx.sample(|| q.clone());
        volley(ctx, vec![("workspace/executeCommand", q)])?;
        alive(ctx)
    })
}
/// C13: a graph is shown for exactly the right command, document and function.
pub fn c13_commands() -> Space {
    let cmds = ["visualize-cfg", "", "visualize-CFG", "visualize", "visualize-cfg ", "hyperir/showDot", "visualize-cfgs"];
    let uris = [URI, "file:///mc/other.hir", "file:///mc/closed.hir", "file:///mc/never.hir", "file:///mc/DOC.hir", "file:///mc/doc.hir#x", "file:///mc/doc.hir?", "file:///mc/doc", "/mc/doc.hir", "doc.hir", ""];
    let names = ["@f", "@g", "@h", "f", "@ff", "@F", "", "@", "@d", "@v"];
    let n = cmds.len() * uris.len() * names.len();
    Space::new("commands", format!("{} commands x {} documents x {} functions, three documents with different functions of the same name", cmds.len(), uris.len(), names.len()), n as u64, move |ctx, i| {
        let mut d = Dig(i);
        let (c, u, f) = (*d.of(&cmds), *d.of(&uris), *d.of(&names));
        ctx.adopt(Session::new()?);
        ctx.state(&format!("{c} {u} {f}"));
        let text = |l: &str, x: &str| format!("@v = 1\ndeclare void @d()\ndefine void @f() {{\n{l}:\n  br {l}\n}}\ndefine void {x}() {{\n{l}1:\n  br {l}2\n}}\n");
        let s = ctx.server()?;
        s.open(URI, &text("a", "@g"), 1)?;
        s.open("file:///mc/other.hir", &text("b", "@h"), 1)?;
        s.open("file:///mc/closed.hir", &text("c", "@g"), 1)?;
        let l = match u {
            _ if u == URI => "a",
            "file:///mc/other.hir" => "b",
            "file:///mc/closed.hir" => "c",
            _ => "",
        };
        let want = match (c, l, f) {
            ("visualize-cfg", "a" | "b" | "c", "@f") => Some(format!("\"{l}\" -> \"{l}\"")),
            ("visualize-cfg", "a" | "c", "@g") | ("visualize-cfg", "b", "@h") => Some(format!("\"{l}1\" -> \"{l}2\"")),
            _ => None,
        };
        let (a, shown) = doc::execute(ctx, c, json!([u, f]))?;
        match want {
            None if a.is_ok() || !shown.is_empty() => Err(format!("{c:?} for {f:?} of {u:?} is answered with {a:?} and {} graphs", shown.len())),
            None => Ok(()),
            Some(w) => {
                if let Err(e) = a {
                    return Err(format!("the graph of {f} of {u} fails: {}", e.message));
                }
                let edges: Vec<_> = shown.iter().flat_map(|g| doc::dot_edges(g["dotGraph"].as_str().unwrap_or("")).unwrap_or_default()).map(|(x, y)| format!("{x:?} -> {y:?}")).collect();
                if edges != [w.clone()] {
                    return Err(format!("the graph of {f} of {u} has the edges {edges:?}, expected {w}"));
                }
                ctx.compared(1);
                Ok(())
            }
        }
    })
}
/// What a server of this version puts into `data` for the symbol at `p`, and mutations of it.
fn payload_values() -> Vec<Value> {
    vec![
        json!(null), json!(true), json!(0), json!(1), json!(2), json!(-1), json!(i64::MAX), json!(i64::MIN), json!(u64::MAX), json!(1e300), json!(""), json!("Label"), json!("LocalVar"), json!("Function"), json!("GlobalVar"),
        json!("DbgAnnotation"), json!(URI), json!("file:///mc/never-opened.hir"), json!("x"), json!([]), json!({}), json!([0]), json!({"a": 1}),
    ]
}
fn leaves(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(at.clone());
    if let Value::Object(o) = v {
        for (k, v) in o {
            at.push(k.clone());
            leaves(v, at, out);
            at.pop();
        }
    }
}
fn set_at(v: &mut Value, path: &[String], new: Option<&Value>) {
    match path {
        [] => *v = new.cloned().unwrap_or(Value::Null),
        [last] => {
            if let Some(o) = v.as_object_mut() {
                match new {
                    Some(n) => {
                        o.insert(last.clone(), n.clone());
                    }
                    None => {
                        o.remove(last);
                    }
                }
            }
        }
        [h, t @ ..] => {
            if let Some(c) = v.get_mut(h) {
                set_at(c, t, new)
            }
        }
    }
}
/// Payloads: the genuine ones of every kind, with every one (quick) or two (thorough) places of
/// their data replaced by every value, or removed. Resolved against three documents.
pub fn c01_payloads(two: bool) -> Space {
    let vals = payload_values();
    let m = vals.len() as u64 + 1;
    let docs = [MODULE, "", "define void @q() {\n}\n@a = @b1\n"];
    // Data is an object with at most this many places, whatever its layout.
    const PLACES: u64 = 12;
    let per = if two { PLACES * PLACES * m * m } else { PLACES * m };
    let n = per * 5 * docs.len() as u64;
    Space::new("payloads", format!("resolving the action of each symbol kind with {} of its data's places replaced by each of {} values or removed, against 3 documents", if two { "every two" } else { "every one" }, vals.len()), n, move |ctx, i| {
        let mut d = Dig(i);
        let p = module_positions()[d.take(5)];
        let text = docs[d.take(3)];
        let edits: Vec<(u64, u64)> = (0..if two { 2 } else { 1 }).map(|_| (d.take(PLACES as usize) as u64, d.take(m as usize) as u64)).collect();
        if two && edits[0].0 > edits[1].0 {
            return Ok(());
        }
        ctx.set_init(doc::init_lazy());
        thread_local!(static GENUINE: RefCell<HashMap<Pos, Value>> = RefCell::new(HashMap::new()));
        let act = GENUINE.with(|g| g.borrow().get(&p).cloned());
        let mut act = match act {
            Some(a) => a,
            None => {
                ctx.load(MODULE)?;
                let a = doc::code_actions(ctx, p, p)?;
                let a = a.first().cloned().unwrap_or(json!({"title": "t"}));
                GENUINE.with(|g| g.borrow_mut().insert(p, a.clone()));
                a
            }
        };
        let mut paths = vec![];
        leaves(&act["data"], &mut vec![], &mut paths);
        if edits.iter().any(|e| e.0 >= paths.len() as u64) {
            return Ok(());
        }
        for (pl, v) in &edits {
            set_at(&mut act["data"], &paths[*pl as usize].clone(), vals.get(*v as usize));
        }
        ctx.load(text)?;
        ctx.state(&format!("{text}{act}"));
        ctx.sample(|| act.clone());
        volley(ctx, vec![("codeAction/resolve", act)])?;
        volley(ctx, requests_doc(URI))
    })
}
fn messages() -> Vec<(bool, &'static str, Value)> {
    let u2 = "file:///mc/other.hir";
    let mut ops: Vec<(bool, &'static str, Value)> = vec![];
    for u in [URI, u2] {
        ops.push((false, "textDocument/didOpen", open_params(u, MODULE, 1)));
        ops.push((false, "textDocument/didChange", change_params(u, &["define void @f( {\n\"é"], 2)));
        ops.push((false, "textDocument/didChange", change_params(u, &[], 3)));
        ops.push((false, "textDocument/didClose", doc_params(u)));
        ops.push((true, "textDocument/documentSymbol", doc_params(u)));
    }
    ops.push((true, "textDocument/rename", json!({"textDocument": {"uri": URI}, "position": {"line": 0, "character": 1}, "newName": "+1"})));
    ops.push((true, "workspace/executeCommand", json!({"command": "visualize-cfg", "arguments": [URI, "@f2"]})));
    ops.push((true, "textDocument/hover", pos_params(URI, 0, 0)));
    ops.push((true, "hyperir/unknown", json!({})));
    ops.push((true, "workspace/symbol", json!({"query": "a"})));
    ops.push((false, "$/cancelRequest", json!({"id": 999999})));
    ops.push((false, "$/setTrace", json!({"value": "verbose"})));
    ops.push((false, "textDocument/didSave", doc_params(URI)));
    ops.push((false, "workspace/didChangeConfiguration", json!({"settings": null})));
    ops.push((false, "workspace/didChangeWatchedFiles", json!({"changes": []})));
    ops.push((false, "initialized", json!({})));
    ops.push((false, "hyperir/unknown", json!({})));
    ops
}
/// The same message over and over.
pub fn c01_repeated(times: u64) -> Space {
    let ops = messages();
    let k = ops.len() as u64;
    Space::new("repeated", format!("each of {k} messages {times} times, alone or alternating with each other one, every request answered; the server works afterwards"), k * k, move |ctx, i| {
        let pair = [&ops[(i % k) as usize], &ops[(i / k) as usize]];
        ctx.reset();
        ctx.set_init(default_init());
        load_module(ctx)?;
        ctx.state(&i.to_string());
        for n in 0..times {
            let (req, m, p) = pair[(n % 2) as usize];
            if *req {
                volley(ctx, vec![(m, p.clone())])?;
            } else {
                ctx.server()?.notify(m, p.clone())?;
            }
        }
        load_module(ctx)?;
        alive(ctx)?;
        ctx.reset();
        Ok(())
    })
}
/// Sequences of everything a client may send, one after the other.
pub fn c01_sequences(max: u32) -> Space {
    let ops = messages();
    let k = ops.len() as u64;
    Space::new("message-sequences", format!("every sequence of up to {max} of {k} messages (known and unknown methods, two documents), then shutting down at once or after more work"), seq_count(k, 1, max) * 2, move |ctx, i| {
        let seq = seq_at(k, 1, i / 2);
        ctx.reset();
        ctx.set_init(default_init());
        ctx.server()?;
        ctx.state(&format!("{seq:?} {}", i % 2));
        for j in seq {
            let (req, m, p) = &ops[j];
            if *req {
                volley(ctx, vec![(m, p.clone())])?;
            } else {
                let s = ctx.server()?;
                s.notify(m, p.clone())?;
            }
        }
        if i % 2 == 0 {
            load_module(ctx)?;
            alive(ctx)?;
        }
        volley(ctx, vec![("shutdown", Value::Null)])?;
        ctx.reset();
        Ok(())
    })
}

// ---- C02 ----
const URIS: &[&str] = &["file:///mc/a.hir", "git:/mc/a.hir?HEAD", "file:///mc/A.hir"];
const TEXTS: &[&str] = &[
    "@a1 = 1\n@b = @a1, @c\n",
    "declare void @a1() !1\n!1 = {\"backtrace\": [[\"F\", \"x.cpp:1\"]]}\ndefine void @f(int32 %a1) {\na1:\n  int32 %v = add %a1 !1\n  br a1 !2\n}\n",
    "",
    "@a1 = 1\nfoo é𝒳\n\n@b = @a1, @c\n@b = 2",
];
const PROBES: &[Pos] = &[(0, 1), (0, 14), (1, 1), (1, 6), (2, 23), (3, 0), (3, 6), (5, 5)];
/// Makes answers comparable: order in unordered collections does not matter.
pub fn normal(v: &Value) -> Value {
    match v {
        Value::Array(a) if a.iter().all(|x| x.is_number()) => v.clone(),
        Value::Array(a) => {
            let mut a: Vec<Value> = a.iter().map(normal).collect();
            a.sort_by_cached_key(|x| x.to_string());
            Value::Array(a)
        }
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), normal(v))).collect()),
        v => v.clone(),
    }
}
fn snapshot(s: &mut Session, uri: &str) -> Result<Vec<Value>, String> {
    snapshot_of(s, uri, &[])
}
/// The answers to these requests (all, if none are given).
fn snapshot_of(s: &mut Session, uri: &str, methods: &[&str]) -> Result<Vec<Value>, String> {
    let mut out = vec![];
    let mut rs = requests_doc(uri);
    for p in PROBES {
        rs.extend(requests_at(uri, *p));
    }
    for (m, p) in rs.into_iter().filter(|(m, _)| methods.is_empty() || methods.contains(m)) {
        match s.request(m, p)? {
            Ok(v) => {
                out.push(json!([m, normal(&v)]));
                if methods.contains(&"codeAction/resolve") {
                    for a in v.as_array().into_iter().flatten() {
                        out.push(match s.request("codeAction/resolve", a.clone())? {
                            Ok(v) => json!(["codeAction/resolve", normal(&v["edit"])]),
                            Err(e) => json!(["codeAction/resolve", "error", e.code]),
                        });
                    }
                }
            }
            Err(e) => out.push(json!([m, "error", e.code])),
        }
    }
    if !methods.is_empty() && !methods.contains(&"workspace/executeCommand") {
        return Ok(out);
    }
    // The graph of the function, if any.
    let id = s.fresh_id();
    s.feed(json!({"jsonrpc": "2.0", "id": id, "method": "workspace/executeCommand", "params": {"command": "visualize-cfg", "arguments": [uri, "@f"]}}));
    s.run()?;
    let g = s.take_server_requests();
    for r in &g {
        s.reply(&r["id"], json!({}))?;
    }
    let a = s.answer(id, "visualize-cfg")?;
    out.push(json!(["graph", g.iter().map(|r| normal(&r["params"])).collect::<Vec<_>>(), a.is_ok()]));
    Ok(out)
}
type Snap = (Vec<Value>, Vec<Value>);
thread_local! {
    static FRESH: RefCell<HashMap<(String, String), Snap>> = RefCell::new(HashMap::new());
}
/// Answers and diagnostics of a server that has seen nothing but this text.
fn fresh(uri: &str, text: Option<&str>) -> Result<Snap, String> {
    let key = (uri.to_string(), text.map_or("\u{0}none".to_string(), |t| t.to_string()));
    if let Some(s) = FRESH.with(|f| f.borrow().get(&key).cloned()) {
        return Ok(s);
    }
    let mut s = Session::new()?;
    let mut d = vec![];
    if let Some(t) = text {
        s.open(uri, t, 1)?;
        d = s.take_diagnostics().pop().map(|d| normal(&d["diagnostics"])).and_then(|d| d.as_array().cloned()).unwrap_or_default();
    }
    let snap = (snapshot(&mut s, uri)?, d);
    FRESH.with(|f| {
        let mut f = f.borrow_mut();
        if f.len() > 2000 {
            f.clear();
        }
        f.insert(key, snap.clone())
    });
    Ok(snap)
}
#[derive(Clone, Debug)]
pub enum Op {
    Open(usize, usize),
    Change(usize, Vec<usize>),
    Close(usize),
    Query(usize),
    /// Something that changes no text.
    Other(usize, usize),
}
const OTHERS: usize = 14;
/// Messages of a client that change no text.
fn other(d: usize, k: usize, text: &str) -> (bool, &'static str, Value) {
    let u = URIS[d];
    match k {
        0 => (false, "textDocument/didSave", doc_params(u)),
        1 => (false, "textDocument/didSave", json!({"textDocument": {"uri": u}, "text": text})),
        2 => (false, "textDocument/willSave", json!({"textDocument": {"uri": u}, "reason": 1})),
        3 => (false, "workspace/didChangeWatchedFiles", json!({"changes": [{"uri": u, "type": 2}, {"uri": URIS[1], "type": 1}]})),
        4 => (false, "workspace/didChangeWatchedFiles", json!({"changes": [{"uri": u, "type": 3}]})),
        5 => (false, "workspace/didChangeConfiguration", json!({"settings": {"hyperIrLsp": {}}})),
        6 => (false, "workspace/didChangeWorkspaceFolders", json!({"event": {"added": [], "removed": []}})),
        7 => (false, "$/setTrace", json!({"value": "verbose"})),
        8 => (false, "workspace/didDeleteFiles", json!({"files": [{"uri": u}]})),
        9 => (false, "workspace/didRenameFiles", json!({"files": [{"oldUri": u, "newUri": URIS[1]}]})),
        10 => (true, "textDocument/rename", json!({"textDocument": {"uri": u}, "position": {"line": 0, "character": 1}, "newName": "not a name"})),
        11 => (true, "textDocument/rename", json!({"textDocument": {"uri": u}, "position": {"line": 0, "character": 1}, "newName": "@q9"})),
        12 => (true, "workspace/executeCommand", json!({"command": "nonsense", "arguments": [u]})),
        _ => (true, "textDocument/formatting", json!({"textDocument": {"uri": u}, "options": {"tabSize": 2, "insertSpaces": true}})),
    }
}
fn ops(docs: usize, texts: usize) -> Vec<Op> {
    let mut v = vec![];
    for d in 0..docs {
        for t in 0..texts {
            v.push(Op::Open(d, t));
            v.push(Op::Change(d, vec![t]));
        }
        v.push(Op::Change(d, vec![]));
        for (a, b) in [(0, 1), (1, 0), (2, 3), (1, 2), (0, 3)] {
            if a < texts && b < texts {
                v.push(Op::Change(d, vec![a, b]));
            }
        }
        if texts > 2 {
            v.push(Op::Change(d, vec![0, 1, 2]));
        }
        v.push(Op::Close(d));
        v.push(Op::Query(d));
    }
    v
}
#[derive(Default, Clone)]
struct DocState {
    text: Option<usize>,
    open: bool,
    version: i64,
    diags: Option<Value>,
    /// The version whose text is the current one.
    text_version: i64,
}
/// Runs a history on a fresh server and compares everything at its end.
pub fn history(ctx: &mut Ctx, hist: &[Op], texts: &[String]) -> Verdict {
    // Only histories a client may produce: changes and closes concern open documents.
    let mut open = vec![false; URIS.len()];
    for o in hist {
        match o {
            Op::Open(d, _) => open[*d] = true,
            Op::Change(d, _) if !open[*d] => return Ok(()),
            Op::Close(d) if !open[*d] => return Ok(()),
            Op::Close(d) => open[*d] = false,
            _ => {}
        }
    }
    ctx.state(&format!("{hist:?}"));
    ctx.sample(|| json!(format!("{hist:?}")));
    ctx.adopt(Session::new()?);
    let mut st = vec![DocState::default(); URIS.len()];
    for o in hist {
        let s = ctx.server()?;
        match o {
            Op::Open(d, t) => {
                let x = &mut st[*d];
                // A document opened again starts over with its versions.
                x.version = if x.open { x.version + 1 } else { 1 };
                x.open = true;
                x.text = Some(*t);
                x.text_version = x.version;
                s.open(URIS[*d], &texts[*t], x.version)?;
            }
            Op::Change(d, ts) => {
                let x = &mut st[*d];
                x.version += 3;
                if let Some(t) = ts.last() {
                    x.text = Some(*t);
                    x.text_version = x.version;
                }
                let tx: Vec<&str> = ts.iter().map(|t| texts[*t].as_str()).collect();
                s.notify("textDocument/didChange", change_params(URIS[*d], &tx, x.version))?;
            }
            Op::Close(d) => {
                st[*d].open = false;
                s.notify("textDocument/didClose", doc_params(URIS[*d]))?;
            }
            Op::Query(d) => {
                snapshot(s, URIS[*d])?;
            }
            Op::Other(d, k) => {
                let (req, m, p) = other(*d, *k, st[*d].text.map_or("", |t| texts[t].as_str()));
                if req {
                    let _ = s.request(m, p)?;
                } else {
                    s.notify(m, p)?;
                }
            }
        }
        for d in s.take_diagnostics() {
            let Some(i) = URIS.iter().position(|u| d["uri"] == *u) else {
                return Err(format!("diagnostics for an unknown document {}", d["uri"]));
            };
            let touched = match o {
                Op::Open(d, _) | Op::Change(d, _) | Op::Close(d) | Op::Query(d) | Op::Other(d, _) => *d,
            };
            if i != touched && normal(&d["diagnostics"]) != st[i].diags.as_ref().map_or(json!([]), |x| normal(&x["diagnostics"])) {
                return Err(format!("{o:?} changed the diagnostics of {}", URIS[i]));
            }
            st[i].diags = Some(d);
        }
    }
    let mut n = 0;
    for (i, x) in st.iter().enumerate() {
        let want = fresh(URIS[i], x.text.map(|t| texts[t].as_str()))?;
        let got = snapshot(ctx.server()?, URIS[i])?;
        for (a, b) in got.iter().zip(&want.0) {
            if a != b {
                return Err(format!("after {hist:?}, {} about {} is\n  {}\ninstead of\n  {}", a[0], URIS[i], a, b));
            }
            n += 1;
        }
        let Some(t) = x.text else {
            if x.diags.is_some() {
                return Err(format!("diagnostics for {}, which was never opened", URIS[i]));
            }
            continue;
        };
        let Some(d) = &x.diags else {
            return Err(format!("no diagnostics were published for {}", URIS[i]));
        };
        // A closed document's diagnostics may also be cleared.
        let cleared = !x.open && d["diagnostics"].as_array().map_or(false, |a| a.is_empty());
        if normal(&d["diagnostics"]) != Value::Array(want.1.clone()) && !cleared {
            return Err(format!("after {hist:?}, the diagnostics of {} are {}, expected {} (text {t})", URIS[i], d["diagnostics"], json!(want.1)));
        }
        let v = d["version"].as_i64();
        if !cleared && v.map_or(false, |v| v < x.text_version || v > x.version) {
            return Err(format!("after {hist:?}, the diagnostics of {} carry version {v:?}, the text has version {}", URIS[i], x.text_version));
        }
        if !cleared && v.is_none() {
            return Err(format!("the diagnostics of {} carry no version", URIS[i]));
        }
    }
    ctx.compared(n);
    Ok(())
}
pub fn c02(name: &str, docs: usize, texts: usize, min: u32, max: u32) -> Space {
    let o = ops(docs, texts);
    let k = o.len() as u64;
    let tx: Vec<String> = TEXTS.iter().map(|t| t.to_string()).collect();
    Space::new(name, format!("every conforming history of {min} to {max} of {k} operations (open, change with 0 to 3 contents, close, re-open, query) on {docs} documents and {texts} texts"), seq_count(k, min, max), move |ctx, i| {
        let h: Vec<Op> = seq_at(k, min, i).into_iter().map(|j| o[j].clone()).collect();
        history(ctx, &h, &tx)
    })
}
/// Histories with messages in between that change no text.
pub fn c02_others(max: u32) -> Space {
    let mut o: Vec<Op> = vec![Op::Open(0, 0), Op::Open(0, 1), Op::Change(0, vec![1]), Op::Change(0, vec![3]), Op::Close(0), Op::Open(1, 3)];
    o.extend((0..OTHERS).map(|k| Op::Other(0, k)));
    let k = o.len() as u64;
    let tx: Vec<String> = TEXTS.iter().map(|t| t.to_string()).collect();
    Space::new("other-messages", format!("every conforming history of 2 to {max} of {k} operations, {OTHERS} of them messages that change no text (saving, watched files, configuration, failing requests, ...)"), seq_count(k, 2, max), move |ctx, i| {
        let h: Vec<Op> = seq_at(k, 2, i).into_iter().map(|j| o[j].clone()).collect();
        history(ctx, &h, &tx)
    })
}
/// Versions of every size and distance.
pub fn c02_versions() -> Space {
    const V: &[i64] = &[i32::MIN as i64, -7, -1, 0, 1, 2, 3, 100, 65536, i32::MAX as i64];
    let n = V.len() as u64;
    Space::new("versions", format!("opening, changing, closing, opening again and changing with every choice of 4 of {n} versions {V:?} that rise while the document is open"), n.pow(4), move |ctx, i| {
        let mut d = Dig(i);
        let v: Vec<i64> = (0..4).map(|_| *d.of(V)).collect();
        if v[0] >= v[1] || v[2] >= v[3] {
            return Ok(());
        }
        ctx.state(&format!("{v:?}"));
        ctx.sample(|| json!(v));
        ctx.adopt(Session::new()?);
        let u = URIS[0];
        for step in 0..4 {
            let s = ctx.server()?;
            match step {
                0 => s.open(u, TEXTS[0], v[0])?,
                1 => s.notify("textDocument/didChange", change_params(u, &[TEXTS[3]], v[1]))?,
                2 => {
                    s.notify("textDocument/didClose", doc_params(u))?;
                    s.open(u, TEXTS[1], v[2])?
                }
                _ => s.notify("textDocument/didChange", change_params(u, &[TEXTS[0]], v[3]))?,
            }
            let want = fresh(u, Some(TEXTS[[0, 3, 1, 0][step]]))?;
            let s = ctx.server()?;
            let ds = s.take_diagnostics();
            let last = ds.last().ok_or("no diagnostics")?;
            if normal(&last["diagnostics"]) != Value::Array(want.1.clone()) || last["version"] != v[step] {
                return Err(format!("versions {v:?}: after step {step}, the diagnostics are {last}"));
            }
            for (a, b) in snapshot(s, u)?.iter().zip(&want.0) {
                if a != b {
                    return Err(format!("versions {v:?}: after step {step}, {} is\n  {a}\ninstead of\n  {b}", a[0]));
                }
                ctx.compared(1);
            }
        }
        Ok(())
    })
}
/// Texts that are easily mistaken for each other: same length, same lines, same letters, ...
pub fn c02_similar(max: u32) -> Space {
    const T: &[&str] = &[
        "@a1 = 1\n@b1 = @a1\n", "@b1 = 1\n@a1 = @b1\n", "@a2 = 1\n@b1 = @a2\n", "@A1 = 1\n@b1 = @A1\n", "@b1 = @a1\n@a1 = 1\n", "@a1 = 1\n@b1 = @a1 ", "@a1 = 1\n@b1 = @a1", "@a1 = 1\r\n@b1 = @a1\n", "\n@a1 = 1\n@b1 = @a1\n",
        "#a1 = 1\n@b1 = @a1\n", "@a1 = 1\n@b1 = @c1\n",
        "define void @f() {\nb1:\n  br b2\nb2:\n  ret !1\n}\n", "define void @f() {\nb1:\n  br b1\nb2:\n  ret !2\n}\n", "define void @g() {\nb1:\n  rr b2\nb2:\n  br b1\n}\n",
    ];
    let mut o = vec![Op::Close(0), Op::Query(0)];
    for t in 0..T.len() {
        o.extend([Op::Open(0, t), Op::Change(0, vec![t])]);
    }
    let k = o.len() as u64;
    let tx: Vec<String> = T.iter().map(|t| t.to_string()).collect();
    // The first operation always opens the document.
    Space::new("similar-texts", format!("every conforming history of an opening and up to {max} more operations on one document and {} texts that differ in a name, a letter's case, the order of lines or the line ends only", T.len()), T.len() as u64 * seq_count(k, 1, max), move |ctx, i| {
        let mut h = vec![Op::Open(0, (i % T.len() as u64) as usize)];
        h.extend(seq_at(k, 1, i / T.len() as u64).into_iter().map(|j| o[j].clone()));
        history(ctx, &h, &tx)
    })
}
/// Every text of a family replaced by every other (and back): no trace of the first remains.
pub fn c02_pairs(n: u64) -> Space {
    let all: Vec<String> = docs::STMTS.iter().chain(docs::FUNCS).chain(docs::BROKEN).map(|s| s.to_string()).collect();
    let k = all.len() as u64;
    let _ = n;
    Space::new("text-pairs", format!("every one of {k} texts replaced by every other one, by change, by close and re-open, and by one change with both, with a second document holding the old text"), k * k * 3, move |ctx, i| {
        let mut d = Dig(i);
        let (a, b, how) = (d.take(all.len()), d.take(all.len()), d.take(3));
        let h = match how {
            0 => vec![Op::Open(0, a), Op::Open(1, a), Op::Change(0, vec![b])],
            1 => vec![Op::Open(0, a), Op::Open(1, a), Op::Query(0), Op::Change(0, vec![a]), Op::Close(0), Op::Open(0, b)],
            _ => vec![Op::Open(0, b), Op::Open(1, a), Op::Change(0, vec![b, a]), Op::Change(0, vec![a, b])],
        };
        history(ctx, &h, &all)
    })
}
/// Small edits of a text, as made by somebody who types: nothing of the text before the edit remains.
pub fn c02_edits() -> Space {
    const INS: &[&str] = &["#", " ", "\n", "\r\n", "\t", "a", "1", "@", "%", "!", "\"", ":", "=", ",", "(", ")", "{", "}", "é", "𝒳", "# c\n", " # c", "@z = 1\n", "foo\n", "  br a1\n"];
    const DEL: &[usize] = &[1, 2, 3, 5, 8, usize::MAX];
    const REP: &[&str] = &["z", "7", " ", "Q"];
    let long = (0..14).map(|k| format!("@g{k} = {k}, @h{k}\ndeclare void @f{k}()\n")).collect::<String>() + &(0..6).map(|k| format!("define void @d{k}() {{\nb{k}:\n  int32 %v{k} = add @g{k}\n  br b{k}\n}}\n")).collect::<String>();
    // (text, whether all insertions and deletions or replacements only)
    let bases: Vec<(String, bool)> = [TEXTS[0], TEXTS[1], TEXTS[3], "@a = 1 # c  ", "define void @f(  \n", "@a = \"x  \n "].iter().map(|t| (t.to_string(), true)).chain([(long, false)]).collect();
    let (nb, all) = (bases.len(), INS.len() + DEL.len() + REP.len());
    let per = move |full: bool| if full { all } else { REP.len() };
    let n: usize = bases.iter().map(|b| (b.0.chars().count() + 1) * per(b.1) * 3).sum();
    Space::new("edits", format!("every insertion of {INS:?}, deletion of 1, 2, 3, 5, 8 or all following characters, and replacement of a character by {REP:?}, at every place of {nb} texts (replacements only in the longest one), made, undone, and made after questions about the text"), n as u64, move |ctx, i| {
        let mut i = i as usize;
        for (text, full) in &bases {
            let t: Vec<char> = text.chars().collect();
            let per = per(*full);
            let k = (t.len() + 1) * per * 3;
            if i >= k {
                i -= k;
                continue;
            }
            let (how, e, at) = (i % 3, i / 3 % per, i / 3 / per);
            let head: String = t[..at].iter().collect();
            let tail = |n: usize| t[at..].iter().skip(n).collect::<String>();
            let edited = if e < REP.len() {
                format!("{head}{}{}", REP[e], tail(1))
            } else {
                match INS.get(e - REP.len()) {
                    Some(x) => format!("{head}{x}{}", tail(0)),
                    None => format!("{head}{}", tail(DEL[e - REP.len() - INS.len()])),
                }
            };
            let tx = vec![text.clone(), edited];
            let h = match how {
                0 => vec![Op::Open(0, 0), Op::Change(0, vec![1])],
                1 => vec![Op::Open(0, 1), Op::Change(0, vec![0])],
                _ => vec![Op::Open(0, 0), Op::Query(0), Op::Change(0, vec![1])],
            };
            ctx.state(&format!("{tx:?} {how}"));
            return history(ctx, &h, &tx).map_err(|e| format!("{e}\n--- texts {tx:?}"));
        }
        Ok(())
    })
}
/// A text typed (or removed) character by character.
pub fn c02_typing() -> Space {
    const BASE: &[usize] = &[0, 1, 3];
    let n: usize = BASE.iter().map(|b| (TEXTS[*b].chars().count() + 1) * 4).sum();
    Space::new("typing", format!("every prefix of {} texts reached by typing or deleting one character at a time, with and without questions in between, in one message or many", BASE.len()), n as u64, move |ctx, i| {
        let mut i = i as usize;
        for b in BASE {
            let t: Vec<char> = TEXTS[*b].chars().collect();
            let k = (t.len() + 1) * 4;
            if i >= k {
                i -= k;
                continue;
            }
            let (how, at) = (i % 4, i / 4);
            let tx: Vec<String> = (0..=t.len()).map(|n| t[..n].iter().collect()).collect();
            let mut h = vec![];
            match how {
                0 => {
                    h.push(Op::Open(0, 0));
                    h.extend((1..=at).map(|n| Op::Change(0, vec![n])));
                }
                1 => {
                    h.push(Op::Open(0, 0));
                    h.push(Op::Change(0, (0..=at).collect()));
                }
                2 => {
                    h.push(Op::Open(0, t.len()));
                    h.extend((at..t.len()).rev().map(|n| Op::Change(0, vec![n])));
                }
                _ => {
                    h.push(Op::Open(0, at.saturating_sub(4)));
                    for n in at.saturating_sub(3)..=at {
                        h.extend([Op::Query(0), Op::Change(0, vec![n])]);
                    }
                }
            }
            return history(ctx, &h, &tx);
        }
        Ok(())
    })
}
/// Long histories: one document changed n times, n documents open at once.
pub fn c02_long(max: u64) -> Space {
    let tx: Vec<String> = TEXTS.iter().map(|t| t.to_string()).collect();
    Space::new("long-histories", format!("1 to {max} changes in a row (four text cycles), with opening and closing in between"), max * 4, move |ctx, i| {
        let (n, c) = (i / 4 + 1, i % 4);
        let mut h = vec![Op::Open(0, 0), Op::Open(1, 1)];
        for k in 0..n {
            let t = ((k + c) % 4) as usize;
            match c {
                0 => h.push(Op::Change(0, vec![t])),
                1 => h.push(Op::Change((k % 2) as usize, vec![t])),
                2 => h.extend([Op::Close(0), Op::Open(0, t)]),
                _ => h.push(Op::Change(0, vec![t, (t + 1) % 4])),
            }
        }
        history(ctx, &h, &tx)
    })
}
/// Documents with all kinds of addresses: each is what the client said it is, under its own address.
pub fn c02_uris() -> Space {
    addresses("addresses", &[])
}
pub const ADDRESSES: &[&str] = &[
    "file:///mc/a.hir", "file:///mc/A.hir", "file:///MC/a.hir", "file:///mc/a.HIR", "file:///mc/b.hir", "file:///mc/a", "file:///mc/a.hir.hir", "file:///mc/a.txt", "file:///mc/sub/a.hir", "file:///a.hir", "file:///mc/.a.hir",
    "file:///mc/a%20b.hir", "file:///mc/a+b.hir", "file:///mc/a-b.hir", "file:///mc/a%23b.hir", "file:///mc/a%3Fb.hir", "file:///mc/a%25b.hir", "file:///mc/%C3%A4.hir", "file:///mc/a%CC%88.hir", "file:///mc/%F0%9D%92%B3.hir",
    "file:///c%3A/mc/a.hir", "file:///d%3A/mc/a.hir", "file:///e:/mc/a.hir", "file:///mc/f%3Ag.hir", "file://host/mc/a.hir", "file://host2/mc/a.hir", "file:///mc/x%5By%5D.hir", "file:///mc/x(y).hir", "file:///mc/a~1.hir", "file:///mc/a@1.hir",
    "untitled:Untitled-1", "untitled:Untitled-2", "untitled:/mc/a.hir", "git:/mc/a.hir?%7B%22ref%22%3A%22~%22%7D", "git:/mc/a.hir?%7B%22ref%22%3A%22HEAD%22%7D", "git:/mc/a.hir", "vscode-notebook-cell:/mc/n.ipynb#c1", "vscode-notebook-cell:/mc/n.ipynb#c2",
    "vscode-vfs://github/o/r/a.hir", "vscode-remote://ssh%2Bhost/mc/a.hir", "http://host/a.hir", "http://host:81/a.hir", "inmemory://model/1", "inmemory://model/2", "mailto:a", "urn:x:y", "x:y",
];
/// The same, for some requests only.
pub fn addresses(name: &str, methods: &'static [&'static str]) -> Space {
    const U: &[&str] = ADDRESSES;
    const PLAIN: &str = "file:///mc-plain/p.hir";
    let n = U.len() as u64;
    let lazy = methods.contains(&"codeAction/resolve");
    let start = move || Session::with_init(if lazy { doc::init_lazy() } else { default_init() }).map(|s| s.0);
    Space::new(name, format!("every ordered pair of {n} document addresses {U:?}, opened with different texts, the first one changed, the second one closed and opened again or not"), n * n * 2, move |ctx, i| {
        let mut d = Dig(i);
        let (u, v, how) = (*d.of(U), *d.of(U), d.take(2));
        if u == v {
            return Ok(());
        }
        ctx.state(&format!("{u} {v} {how}"));
        ctx.sample(|| json!([u, v, how]));
        ctx.adopt(start()?);
        let s = ctx.server()?;
        s.open(u, TEXTS[0], 1)?;
        s.open(v, TEXTS[1], 1)?;
        s.notify("textDocument/didChange", change_params(u, &[TEXTS[3]], 2))?;
        let mut tv = 1;
        if how == 1 {
            s.notify("textDocument/didClose", doc_params(v))?;
            s.open(v, TEXTS[0], 1)?;
            tv = 0;
        }
        let ds = s.take_diagnostics();
        if let Some(d) = ds.iter().find(|d| d["uri"] != u && d["uri"] != v) {
            return Err(format!("diagnostics for {}; open are {u} and {v}", d["uri"]));
        }
        for (a, t, ver) in [(u, 3, 2), (v, tv, 1)] {
            let want = if methods.is_empty() {
                fresh(PLAIN, Some(TEXTS[t]))?
            } else {
                let mut s = start()?;
                s.open(PLAIN, TEXTS[t], 1)?;
                let d = s.take_diagnostics().pop().map(|d| normal(&d["diagnostics"])).and_then(|d| d.as_array().cloned()).unwrap_or_default();
                (snapshot_of(&mut s, PLAIN, methods)?, d)
            };
            let to = |x: &Value| -> Value { normal(&serde_json::from_str(&x.to_string().replace(PLAIN, a)).unwrap()) };
            let got = snapshot_of(ctx.server()?, a, methods)?;
            if got.len() != want.0.len() {
                return Err(format!("with {u} and {v} open, there are {} answers about {a} instead of {}", got.len(), want.0.len()));
            }
            for (g, w) in got.iter().zip(&want.0) {
                if normal(g) != to(w) {
                    return Err(format!("with {u} and {v} open, {} about {a} is\n  {g}\ninstead of\n  {}", g[0], to(w)));
                }
                ctx.compared(1);
            }
            if !methods.is_empty() && !methods.contains(&"diagnostics") {
                continue;
            }
            let last = ds.iter().filter(|d| d["uri"] == a).last().ok_or_else(|| format!("no diagnostics for {a}"))?;
            if normal(&last["diagnostics"]) != to(&Value::Array(want.1.clone())) || last["version"] != ver {
                return Err(format!("the diagnostics of {a} are {last}, expected version {ver} of {}", json!(want.1)));
            }
        }
        Ok(())
    })
}
/// Many documents at once: each keeps its own text.
pub fn c02_many(max: u64) -> Space {
    Space::new("many-documents", format!("up to {max} open documents, each with its own text, of which every second one changes"), max, move |ctx, i| {
        let n = i as usize + 1;
        ctx.adopt(Session::new()?);
        ctx.state(&n.to_string());
        let text = |k: usize, g: usize| format!("{}@g{k}_{g} = @u{k}\n", "\n".repeat(k % 5 + g));
        let uri = |k: usize| format!("file:///mc/d{k}.hir");
        let s = ctx.server()?;
        for k in 0..n {
            s.open(&uri(k), &text(k, 0), 1)?;
        }
        for k in (0..n).step_by(2) {
            s.change(&uri(k), &text(k, 1), 2)?;
        }
        let d = s.take_diagnostics();
        for k in 0..n {
            let g = (k % 2 == 0) as usize;
            let v = s.request("textDocument/documentSymbol", doc_params(&uri(k)))?.map_err(|e| e.message)?;
            if v[0]["name"] != format!("@g{k}_{g}") || v[0]["range"]["start"]["line"] != (k % 5 + g) {
                return Err(format!("document {k} of {n} has the outline {v}"));
            }
            let last = d.iter().filter(|d| d["uri"] == uri(k)).last().ok_or("no diagnostics")?;
            if last["diagnostics"].as_array().map_or(0, |a| a.len()) != 1 || last["diagnostics"][0]["range"]["start"]["line"] != (k % 5 + g) || last["version"] != (g + 1) {
                return Err(format!("document {k} of {n} has the diagnostics {last}"));
            }
        }
        ctx.compared(n as u64);
        Ok(())
    })
}

/// Texts of every likely size limit, opened, changed to and left again.
pub fn c02_sizes(max: u32) -> Space {
    let mut sizes: Vec<usize> = (8..=max).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1]).collect();
    sizes.extend([1000usize, 10_000, 100_000, 1_000_000].iter().filter(|n| **n < 1 << max).flat_map(|n| [n - 1, *n, n + 1]));
    sizes.sort();
    let n = sizes.len() as u64;
    Space::new("sizes", format!("texts of {n} sizes up to 2^{max} bytes, consisting mostly of one long comment or of many lines: opened, or changed to from a short text; then changed to a short text and back"), n * 4, move |ctx, i| {
        let mut d = Dig(i);
        let (opened, lines, size) = (d.take(2) == 0, d.take(2) == 0, sizes[d.0 as usize]);
        let (head, tail) = ("@g1 = @u\n# ", "\n@g2 = @w\n");
        let fill = size - head.len() - tail.len();
        let long = if lines { format!("{head}{}{tail}", "--------------------------------------------------------------#\n#".chars().cycle().take(fill).collect::<String>()) } else { format!("{head}{}{tail}", "-".repeat(fill)) };
        // a cut in the middle of a line break would leave a line that is no comment
        let long = if lines && long.contains("\n\n@g2") { long.replace("\n\n@g2", "-\n@g2") } else { long };
        ctx.state(&format!("{opened}{lines}{size}"));
        ctx.adopt(Session::new()?);
        let s = ctx.server()?;
        let uri = "file:///mc/sizes.hir";
        let last = long.matches('\n').count() - 1;
        let judge = |s: &mut Session, version: i64, at: Option<usize>| -> Verdict {
            let v = s.request("textDocument/documentSymbol", doc_params(uri))?.map_err(|e| e.message)?;
            let mut lines: Vec<_> = v.as_array().into_iter().flatten().map(|x| (x["name"].as_str().unwrap_or("").to_string(), x["range"]["start"]["line"].as_u64().unwrap_or(9) as usize)).collect();
            lines.sort();
            let want: Vec<_> = match at {
                Some(l) => vec![("@g1".to_string(), 0), ("@g2".to_string(), l)],
                None => vec![("@h".to_string(), 1)],
            };
            if lines != want {
                return Err(format!("the outline of a text of {size} bytes is {lines:?} instead of {want:?} (version {version})"));
            }
            let ds = s.take_diagnostics();
            let last = ds.iter().filter(|d| d["uri"] == uri).last().ok_or(format!("no diagnostics for a text of {size} bytes"))?;
            let mut got: Vec<_> = last["diagnostics"].as_array().into_iter().flatten().map(|d| d["range"]["start"]["line"].as_u64().unwrap_or(9) as usize).collect();
            got.sort();
            let want: Vec<_> = want.iter().map(|w| w.1).collect();
            if got != want || last["version"] != version {
                return Err(format!("the diagnostics of version {version} of a text of {size} bytes are at {got:?} instead of {want:?}, version {}", last["version"]));
            }
            Ok(())
        };
        let short = "\n@h = @u\n";
        if opened {
            s.open(uri, &long, 1)?;
        } else {
            s.open(uri, short, 0)?;
            judge(s, 0, None)?;
            s.change(uri, &long, 1)?;
        }
        judge(s, 1, Some(last))?;
        s.change(uri, short, 2)?;
        judge(s, 2, None)?;
        s.change(uri, &long, 3)?;
        judge(s, 3, Some(last))?;
        ctx.compared(8);
        Ok(())
    })
}

// ---- C12: histories ----
pub const NUMBERED: &[&str] = &[
    "@g1 = 1\n@g2 = @g1\n",
    "@g2 = 1\n@g1 = @g2, @g3\n",
    "\n@g1 = @g1\n",
    "define void @f1(int32 %v1) {\nb1:\n  int32 %v2 = add %v1\n  br b1\nb2:\n  br b2\n}\n",
    "define void @f1(int32 %v1) {\nb1:\n  int32 %v3 = add %v1, %v2\n  br b2\n}\ndefine void @f2(int32 %v1) {\nb1:\n  br b1\n}\n",
    "@g = 1\ndefine void @f2(int32 %v1) {\nb1:\n  br b1\n}\ndefine void @f1(int32 %v2) {\nb2:\n  br b2\n}\n",
    "declare void @f1() !1\n!1 = 0\n!2 = 0\n",
    "",
    "define void @f1(int32 %v1) {\nbroken %v1\n",
    "!1 = @f1\n@f1 depends on @f2, @f3\ndeclare void @f3()\n",
];
/// An action offered for one text is resolved after the document has become another one.
pub fn c12_histories() -> Space {
    let k = NUMBERED.len() as u64;
    Space::new("resolve-after-change", format!("every action of {k} numbered modules resolved after the document was replaced by every other one, changed twice, or closed and re-opened"), k * k * 3, move |ctx, i| {
        let mut d = Dig(i);
        let (a, b, how) = (*d.of(NUMBERED), *d.of(NUMBERED), d.take(3));
        ctx.set_init(doc::init_lazy());
        let (ma, mb) = (Model::new(a), Model::new(b));
        ctx.state(&format!("{i}"));
        let mut n = 0;
        for p in ma.key_positions() {
            ctx.load(a)?;
            let acts = doc::code_actions(ctx, p, p)?;
            let Some(act) = acts.first() else { continue };
            match how {
                0 => {
                    ctx.load(b)?;
                }
                1 => {
                    ctx.load("@x = 1\n")?;
                    ctx.load(b)?;
                }
                _ => {
                    let s = ctx.server()?;
                    s.notify("textDocument/didClose", doc_params(URI))?;
                    s.open(URI, b, 1)?;
                }
            }
            let r = ask(ctx, "codeAction/resolve", act.clone())?;
            n += 1;
            let sa = ma.at_pos(p).map(|o| &ma.syms[o.1]);
            let fits = sa.and_then(|sa| {
                let Num::Some(_, nr) = sa.number() else { return None };
                // The same scope must still exist; its function is identified by place and name.
                let ok = match sa.scope {
                    None => true,
                    Some(f) => ma.bodies.get(f).map(|x| &x.name.0) == mb.bodies.get(f).map(|x| &x.name.0),
                };
                let here = mb.syms.iter().any(|s| s.kind == sa.kind && s.scope == sa.scope && s.name == sa.name);
                if ok && here && !mb.weird && mb.well_formed { shifted_ok(&mb, sa.kind, sa.scope, nr) } else { None }
            });
            match (r, fits) {
                (Ok(v), fits) => {
                    let e = match v.get("edit") {
                        Some(e) if !e.is_null() => edits(e, URI)?,
                        _ => vec![],
                    };
                    let got = apply(&mb.text, &e).map_err(|e| format!("outdated action from {a:?} resolved against {b:?}: {e}"))?;
                    if let Some(w) = fits {
                        if got != w {
                            return Err(format!("action at {p:?} of {a:?} resolved against {b:?} gives {got:?}, expected {w:?}"));
                        }
                    }
                }
                (Err(e), Some(_)) => return Err(format!("action at {p:?} of {a:?} still fits {b:?} but fails: {}", e.message)),
                (Err(_), None) => {}
            }
        }
        ctx.compared(n);
        Ok(())
    })
}
fn shifted_ok(m: &Model, kind: SymKind, scope: Option<usize>, nr: i64) -> Option<String> {
    match doc::shifted(m, kind, scope, nr, 1) {
        Some(Ok(w)) => Some(w),
        _ => None,
    }
}

// ---- C10: names ----
pub fn c10_names(max: u32) -> Space {
    const A: &[&str] = &["a", "Z", "1", "0", "_", ":", "@", "%", "!", " ", "é", "𝒳", "٣", "-", "+", "\"", "#", "\n", ".", "{"];
    const WORDS: &[&str] = &[
        "define", "declare", "depends", "on", "br", "phi", "switch", "void", "int32", "int1", "ptr", "pure", "exported", "default", "label", "cont", "overflow", "bool", "double", "int64", "bigint", "Void", "defin", "define1",
        "int320", "br1", "persistent", "noexcept", "func", "data128",
    ];
    let k = A.len() as u64;
    const LONG: &[usize] = &[8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025, 4096, 10_000];
    let n = seq_count(k, 0, max) + (WORDS.len() + LONG.len()) as u64 * 6;
    let kinds = [SymKind::GlobalVar, SymKind::Function, SymKind::Dbg, SymKind::Local, SymKind::Label];
    Space::new("new-names", format!("each of 5 symbol kinds renamed to every string of up to {max} of {k} characters and to {} words and names of {} lengths up to 10000 in 6 spellings", WORDS.len(), LONG.len()), n * 5, move |ctx, i| {
        let kind = kinds[(i % 5) as usize];
        let j = i / 5;
        let short = seq_count(k, 0, max);
        let name = if j < short {
            seq_at(k, 0, j).into_iter().map(|x| A[x]).collect::<String>()
        } else {
            let j = j - short;
            let w = (j / 6) as usize;
            let long;
            let w = match WORDS.get(w) {
                Some(w) => *w,
                None => {
                    long = "a1".repeat(LONG[w - WORDS.len()]).chars().take(LONG[w - WORDS.len()]).collect::<String>();
                    &long
                }
            };
            match j % 6 {
                0 => w.to_string(),
                1 => format!("{}{w}", kind.sigil()),
                2 => format!("{w}:"),
                3 => format!("{w} {w}"),
                4 => format!("::{w}"),
                _ => format!("{w}_"),
            }
        };
        doc::c10_name(ctx, kind, &name)
    })
}

// ---- C11: numbers ----
const NUMS: &[&str] = &["v0", "v1", "v2", "w2", "v9", "v10", "x", "1y3", "9223372036854775806", "v9223372036854775807", "w1_5"];
pub fn numbered(max: u32) -> docs::Docs {
    let k = NUMS.len() as u64;
    docs::Docs::new("numbered", &format!("modules in which up to {max} names of {NUMS:?} occur as each kind of symbol, next to all other kinds and another function with the same names"), seq_count(k, 1, max) * 5, move |i| {
        let names: Vec<&str> = seq_at(k, 1, i / 5).into_iter().map(|j| NUMS[j]).collect();
        let id = |n: &str, sig: &str| -> String {
            let n = if sig != "!" && n.starts_with(|c: char| c.is_ascii_digit()) { format!("n{n}") } else { n.to_string() };
            format!("{sig}{n}")
        };
        let list = |sig: &str| names.iter().map(|n| id(n, sig)).collect::<Vec<_>>().join(", ");
        let mut s = String::new();
        let kind = i % 5;
        // The chosen kind has all of the names, the other kinds the numbers 1 and 2.
        if kind == 0 {
            for n in &names {
                s += &format!("{} = 1\n", id(n, "@"));
            }
            s += &format!("@use = {}\n", list("@"));
        }
        s += "@g1 = @g2, @g1\n@g2 = 0\n";
        if kind == 1 {
            for n in &names {
                s += &format!("declare void {}()\n", id(n, "@"));
            }
            s += &format!("@fn depends on {}\n", list("@"));
        }
        s += "declare void @fn1()\n@fn1 depends on @fn2\n";
        if kind == 2 {
            for n in &names {
                s += &format!("{} = 0\n", id(n, "!"));
            }
        }
        s += "!1 = 0\n!2 = 0\n";
        for f in ["a1", "a2"] {
            let mine = f == "a2";
            s += &format!("define void @{f}(int32 %l1) {{\nb1:\n  int32 %l2 = add int32 %l1, @g1 !1\n");
            if mine && kind == 3 {
                for n in &names {
                    s += &format!("  int32 {0} = add int32 {0}\n", id(n, "%"));
                }
            }
            if mine && kind == 2 {
                for n in &names {
                    s += &format!("  foo {}\n", id(n, "!"));
                }
            }
            s += "  br b2 !2\n";
            if mine && kind == 4 {
                for n in &names {
                    s += &format!("{0}:\n  br {0}\n", id(n, ""));
                }
            }
            s += "b2:\n  call @fn1(%l2)\n  br b1\n}\n";
        }
        s
    })
}
pub const SHIFTS: &[&str] = &[
    "+1", "-1", "+7", "-2", "+0", "-0", "+", "-", "+x", "-x1", "+1x", "+ 1", "+9223372036854775807", "-9223372036854775807", "-9223372036854775808", "+9223372036854775808", "+99999999999999999999", "+é", "+1.5", "+0x1",
];

// ---- C19 ----
pub struct Workspace {
    pub dir: String,
}
/// Scratch roots, created once per process below MC_SCRATCH (removed by the supervisor).
pub fn workspace() -> &'static Workspace {
    static W: std::sync::OnceLock<Workspace> = std::sync::OnceLock::new();
    W.get_or_init(|| {
        let dir = crate::engine::scratch() + "/ws";
        for f in [
            "r1/src/m.cpp", "r1/only1.cpp", "r1/hyper/ir/e.cpp", "r1/hyper/x.cpp", "r1/a b.cpp", "r1/é𝒳.cpp", "r1/p%20q.cpp", "r1/h#sh.cpp", "r1/q?m.cpp", "r1/sub/deep/er/n.h", "r2/src/m.cpp", "r2/only2.cpp", "r2/src/k.cpp",
            "outside.cpp", "r1/x:y.cpp", "r ü/only3.cpp", "r1/empty.cpp", "r2/dangling.cpp", "r2/folder.cpp",
        ] {
            let p = format!("{dir}/{f}");
            std::fs::create_dir_all(std::path::Path::new(&p).parent().unwrap()).unwrap();
            std::fs::write(&p, if f.contains("empty") { String::new() } else { "\n".repeat(20) }).unwrap();
        }
        // A link to a file, a file below a linked folder; a link to nothing and one to a folder are no files.
        for (to, f) in [("src/m.cpp", "r1/link.cpp"), ("sub", "r1/linked"), ("nothing", "r1/dangling.cpp"), ("src", "r1/folder.cpp")] {
            let _ = std::fs::remove_file(format!("{dir}/{f}"));
            std::os::unix::fs::symlink(to, format!("{dir}/{f}")).unwrap();
        }
        Workspace { dir }
    })
}
pub fn root_uri(rel: &str) -> String {
    let enc = rel.replace(' ', "%20").replace('ü', "%C3%BC");
    format!("file://{}/{enc}", workspace().dir)
}
/// File system path of a file URI.
pub fn uri_path(u: &str) -> Option<String> {
    let p = u.strip_prefix("file://")?;
    let p = p.split(['#', '?']).next().unwrap();
    let b = p.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            if let Ok(x) = u8::from_str_radix(&p[i + 1..i + 3], 16) {
                out.push(x);
                i += 3;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    let mut s = String::from_utf8(out).ok()?;
    while s.contains("//") {
        s = s.replace("//", "/");
    }
    Some(s)
}
const EXT_MODULE: &str = "declare void @f1() !1\n!1 = \"only1.cpp:3\"\ndeclare void @f2() !2\n!2 = \"only2.cpp:4\"\ndeclare void @f3() !3\n!3 = \"src/m.cpp:5\"\ndefine void @f4(int32 %v1) {\nb1:\n  call @f1(%v1) !1\n  br b1\n}\n@g1 = @f3\n";

fn merge(a: &mut Value, b: &Value) {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in y {
                merge(x.entry(k.clone()).or_insert(Value::Null), v);
            }
        }
        (a, b) => *a = b.clone(),
    }
}
pub fn c19(deep: bool) -> Space {
    // None: absent.
    let folders: Vec<Option<Value>> = {
        let f = |u: String| json!({"uri": u, "name": "n"});
        let g = |u: String, n: &str| json!({"uri": u, "name": n});
        vec![
            Some(json!([g(root_uri("r1"), "")])),
            Some(json!([g(root_uri("r2"), "é 𝒳/.."), g(root_uri("missing"), "é 𝒳/.."), g(root_uri("r1"), " ")])),
            Some(json!([f(root_uri("r1")), f(root_uri("r1"))])),
            None,
            Some(json!(null)),
            Some(json!([])),
            Some(json!([f(root_uri("r1"))])),
            Some(json!([f(root_uri("r2")), f(root_uri("r1"))])),
            Some(json!([f("untitled:x".into()), f(root_uri("r1/")), f("http://host/x".into())])),
            Some(json!([f("mailto:a@b".into()), f("data:,x".into()), f(root_uri("missing")), f(root_uri("r2"))])),
        ]
    };
    let roots: Vec<Option<Value>> = vec![None, Some(json!(null)), Some(json!(root_uri("r2"))), Some(json!(root_uri("r1/"))), Some(json!(root_uri("%72%31"))), Some(json!("untitled:x")), Some(json!("vscode-vfs://github/a/b"))];
    let data = vec![None, Some(json!(false)), Some(json!(true))];
    let props: Vec<Option<Value>> = vec![None, Some(json!([])), Some(json!(["edit"])), Some(json!(["command"])), Some(json!(["command", "edit"])), Some(json!(["Edit"])), Some(json!(["edits", "edi", "disabled"])), Some(json!(["edit", "edit", "title"]))];
    let shapes: Vec<Value> = vec![
        json!({}),
        json!({"textDocument": {}}),
        json!({"textDocument": {"codeAction": {"codeActionLiteralSupport": {"codeActionKind": {"valueSet": ["quickfix"]}}, "dynamicRegistration": true, "isPreferredSupport": true}}}),
        json!({"general": {"positionEncodings": ["utf-8"]}, "offsetEncoding": ["utf-8"]}),
        json!({"general": {"positionEncodings": ["utf-8", "utf-16", "utf-32"]}, "textDocument": {"definition": {"linkSupport": false}, "documentSymbol": {"hierarchicalDocumentSymbolSupport": false}}}),
        json!({"workspace": {"workspaceFolders": true, "configuration": true, "executeCommand": {}}, "window": {"workDoneProgress": true}, "textDocument": {"synchronization": {"didSave": true, "dynamicRegistration": true}, "rename": {"prepareSupport": false}, "semanticTokens": {"requests": {"full": {"delta": true}, "range": true}, "tokenTypes": [], "tokenModifiers": [], "formats": ["relative"], "multilineTokenSupport": true}}}),
    ];
    let clients = vec![
        json!({"processId": 1, "clientInfo": {"name": "mc"}, "trace": "off"}),
        json!({"processId": null}),
        json!({"processId": 1, "clientInfo": {"name": "Visual Studio Code", "version": "1.83.0"}, "trace": "verbose", "locale": "de", "initializationOptions": {"x": [1, null]}, "rootPath": "/nowhere"}),
    ];
    let n = (folders.len() * roots.len() * data.len() * props.len() * shapes.len() * 2 * clients.len()) as u64;
    Space::new("initialize", format!("all combinations of {} workspace-folder lists, {} root URIs, {} dataSupport values, {} resolveSupport lists, with and without a codeAction section, {} sets of other capabilities and {} descriptions of the client", folders.len(), roots.len(), data.len(), props.len(), shapes.len(), clients.len()), n, move |ctx, i| {
        let mut d = Dig(i);
        let (fo, ro, da, pr, sh, ca) = (d.of(&folders).clone(), d.of(&roots).clone(), d.of(&data).clone(), d.of(&props).clone(), d.of(&shapes).clone(), d.take(2) == 1);
        let mut caps = sh;
        if ca {
            let mut c = json!({});
            if let Some(x) = &da {
                c["dataSupport"] = x.clone();
            }
            if let Some(x) = &pr {
                c["resolveSupport"] = json!({ "properties": x });
            }
            merge(&mut caps, &json!({"textDocument": {"codeAction": c}}));
        } else if da.is_some() || pr.is_some() {
            return Ok(());
        }
        let mut init = d.of(&clients).clone();
        init["capabilities"] = caps;
        if let Some(x) = &fo {
            init["workspaceFolders"] = x.clone();
        }
        if let Some(x) = &ro {
            init["rootUri"] = x.clone();
        }
        ctx.state(&init.to_string());
        ctx.sample(|| init.clone());
        let lazy = ca && da == Some(json!(true)) && pr.as_ref().map_or(false, |p| p.as_array().unwrap().contains(&json!("edit")));
        let effective: Vec<String> = match &fo {
            Some(Value::Array(a)) => a.iter().map(|f| f["uri"].as_str().unwrap().to_string()).collect(),
            _ => match &ro {
                Some(Value::String(s)) => vec![s.clone()],
                _ => vec![],
            },
        };
        ctx.set_init(init.clone());
        c19_case(ctx, &init, lazy, &effective, deep).map_err(|e| format!("{e}\n--- initialize ---\n{init}"))
    })
}
/// Every other capability a client may announce, alone and in pairs.
pub fn c19_capabilities() -> Space {
    let mut c: Vec<Value> = vec![json!({})];
    for sec in [
        "synchronization", "completion", "hover", "signatureHelp", "references", "documentHighlight", "documentSymbol", "formatting", "rangeFormatting", "onTypeFormatting", "declaration", "definition", "typeDefinition", "implementation", "codeLens", "documentLink", "colorProvider", "rename", "foldingRange", "selectionRange",
        "linkedEditingRange", "callHierarchy", "typeHierarchy", "inlineValue", "inlayHint", "moniker", "codeAction",
    ] {
        c.push(json!({"textDocument": {sec: {"dynamicRegistration": true}}}));
        c.push(json!({"textDocument": {sec: {"dynamicRegistration": false}}}));
    }
    for sec in ["didChangeConfiguration", "didChangeWatchedFiles", "symbol", "executeCommand", "fileOperations"] {
        c.push(json!({"workspace": {sec: {"dynamicRegistration": true}}}));
        c.push(json!({"workspace": {sec: {"dynamicRegistration": false}}}));
    }
    for sec in ["semanticTokens", "codeLens", "inlineValue", "inlayHint"] {
        c.push(json!({"workspace": {sec: {"refreshSupport": true}}}));
    }
    for (a, b) in [("textDocument", "x"), ("workspace", "x"), ("window", "x"), ("general", "x"), ("experimental", "x")] {
        c.push(json!({a: {}}));
        c.push(json!({a: {b: {}}}));
    }
    c.extend([
        json!({"workspace": {"applyEdit": true}}), json!({"workspace": {"applyEdit": false}}), json!({"workspace": {"workspaceEdit": {"documentChanges": true, "resourceOperations": ["create", "rename", "delete"], "failureHandling": "textOnlyTransactional", "normalizesLineEndings": true}}}),
        json!({"workspace": {"workspaceEdit": {"documentChanges": false}}}), json!({"workspace": {"workspaceFolders": true}}), json!({"workspace": {"workspaceFolders": false}}), json!({"workspace": {"configuration": true}}), json!({"window": {"workDoneProgress": true, "showMessage": {"messageActionItem": {"additionalPropertiesSupport": true}}, "showDocument": {"support": true}}}),
        json!({"window": {"showDocument": {"support": false}}}), json!({"general": {"positionEncodings": ["utf-32"]}}), json!({"general": {"positionEncodings": []}}), json!({"general": {"staleRequestSupport": {"cancel": true, "retryOnContentModified": ["textDocument/semanticTokens/full"]}, "regularExpressions": {"engine": "ECMAScript"}, "markdown": {"parser": "marked"}}}),
        json!({"textDocument": {"codeAction": {"codeActionLiteralSupport": {"codeActionKind": {"valueSet": []}}}}}), json!({"textDocument": {"codeAction": {"codeActionLiteralSupport": {"codeActionKind": {"valueSet": ["", "refactor", "refactor.rewrite"]}}, "disabledSupport": true, "isPreferredSupport": true, "honorsChangeAnnotations": true}}}),
        json!({"textDocument": {"rename": {"prepareSupport": true, "prepareSupportDefaultBehavior": 1, "honorsChangeAnnotations": true}}}), json!({"textDocument": {"rename": {"prepareSupport": false}}}), json!({"textDocument": {"definition": {"linkSupport": true}, "declaration": {"linkSupport": true}}}),
        json!({"textDocument": {"documentSymbol": {"hierarchicalDocumentSymbolSupport": true, "symbolKind": {"valueSet": [12, 14]}, "labelSupport": true}}}), json!({"textDocument": {"foldingRange": {"rangeLimit": 5000, "lineFoldingOnly": true}}}), json!({"textDocument": {"foldingRange": {"rangeLimit": 0, "lineFoldingOnly": false}}}),
        json!({"textDocument": {"inlayHint": {"resolveSupport": {"properties": ["tooltip", "label.location"]}}}}), json!({"textDocument": {"inlayHint": {"resolveSupport": {"properties": []}}}}), json!({"textDocument": {"publishDiagnostics": {"relatedInformation": true, "versionSupport": true, "tagSupport": {"valueSet": [1]}, "codeDescriptionSupport": true, "dataSupport": true}}}),
        json!({"textDocument": {"publishDiagnostics": {"relatedInformation": false, "versionSupport": false}}}), json!({"textDocument": {"semanticTokens": {"requests": {}, "tokenTypes": ["comment"], "tokenModifiers": [], "formats": ["relative"]}}}),
        json!({"textDocument": {"semanticTokens": {"requests": {"full": false, "range": true}, "tokenTypes": ["type", "keyword", "variable", "function", "string", "number", "comment"], "tokenModifiers": ["declaration"], "formats": ["relative"], "overlappingTokenSupport": false, "multilineTokenSupport": false, "augmentsSyntaxTokens": true}}}),
        json!({"textDocument": {"completion": {"completionItem": {"resolveSupport": {"properties": ["edit"]}, "snippetSupport": true}}}}), json!({"workspace": {"symbol": {"resolveSupport": {"properties": ["edit"]}}}}), json!({"textDocument": {"synchronization": {"didSave": true, "willSave": true, "willSaveWaitUntil": true}}}),
        json!({"experimental": true}), json!({"experimental": {"hyperIr": {"showGraph": false}, "serverStatusNotification": true}}),
    ]);
    let n = c.len() as u64;
    Space::new("capabilities", format!("every pair of {n} capabilities a client may announce or deny, with and without lazy code actions"), n * n * 2, move |ctx, i| {
        let mut d = Dig(i);
        let (lazy, a, b) = (d.take(2) == 1, d.take(n as usize), d.take(n as usize));
        if a > b {
            return Ok(());
        }
        let mut caps = c[a].clone();
        let (mut x, y) = (c[b].clone(), json!({"textDocument": {"codeAction": {"dataSupport": true, "resolveSupport": {"properties": ["edit"]}}}}));
        if lazy {
            merge(&mut x, &y);
        }
        if c[a]["experimental"] == true || c[b]["experimental"] == true {
            if caps.get("experimental").is_some() && x.get("experimental").is_some() {
                return Ok(());
            }
        }
        merge(&mut caps, &x);
        let init = json!({"processId": 1, "capabilities": caps, "rootUri": root_uri("r2")});
        ctx.state(&init.to_string());
        ctx.sample(|| init.clone());
        ctx.set_init(init.clone());
        c19_case(ctx, &init, lazy, &[root_uri("r2")], a == 0 || b == 0).map_err(|e| format!("{e}\n--- initialize ---\n{init}"))
    })
}
/// Where a file named in an annotation is found: the first root that has it.
pub fn find_file(roots: &[String], rel: &str) -> Option<String> {
    roots.iter().filter_map(|r| uri_path(r)).map(|r| format!("{}/{}", r.trim_end_matches('/'), rel)).map(|mut p| {
        while p.contains("//") {
            p = p.replace("//", "/");
        }
        p
    }).find(|p| std::path::Path::new(p).is_file())
}
fn c19_case(ctx: &mut Ctx, init: &Value, lazy: bool, roots: &[String], deep: bool) -> Verdict {
    let (s, r) = Session::with_init(init.clone()).map_err(|e| format!("initialize: {e}"))?;
    ctx.adopt(s);
    ctx.server()?.inbox.clear();
    let caps = &r["capabilities"];
    let sync = &caps["textDocumentSync"];
    let full = if sync.is_object() { sync["change"] == 1 && sync["openClose"] == true } else { *sync == json!(1) };
    if !full {
        return Err(format!("full text synchronisation is not announced: {sync}"));
    }
    if let Some(e) = caps.get("positionEncoding").filter(|e| !e.is_null()) {
        if *e != "utf-16" {
            return Err(format!("position encoding {e} announced"));
        }
    }
    if r.get("offsetEncoding").map_or(false, |e| !e.is_null() && *e != "utf-16") {
        return Err(format!("offset encoding {} announced", r["offsetEncoding"]));
    }
    let on = |k: &str| caps.get(k).map_or(false, |v| !v.is_null() && *v != false);
    let resolve = caps["codeActionProvider"].get("resolveProvider") == Some(&json!(true));
    if resolve != lazy {
        return Err(format!("lazy code-action resolution {} for a client that {} it", if resolve { "announced" } else { "not announced" }, if lazy { "supports" } else { "does not support" }));
    }
    // The features a user expects are announced, and everything announced is served.
    for k in [
        "semanticTokensProvider", "documentSymbolProvider", "definitionProvider", "declarationProvider", "referencesProvider", "foldingRangeProvider", "inlayHintProvider", "codeLensProvider", "renameProvider", "codeActionProvider",
        "executeCommandProvider",
    ] {
        if !on(k) {
            return Err(format!("{k} is not announced"));
        }
    }
    let s = ctx.server()?;
    s.open(URI, EXT_MODULE, 1)?;
    let mut served: Vec<(String, Value)> = vec![];
    let p = (0usize, 14usize);
    let pp = pos_params(URI, p.0, p.1);
    for (k, m) in [
        ("documentSymbolProvider", "documentSymbol"), ("definitionProvider", "definition"), ("declarationProvider", "declaration"), ("typeDefinitionProvider", "typeDefinition"), ("implementationProvider", "implementation"),
        ("foldingRangeProvider", "foldingRange"), ("codeLensProvider", "codeLens"), ("hoverProvider", "hover"), ("completionProvider", "completion"), ("documentHighlightProvider", "documentHighlight"),
        ("signatureHelpProvider", "signatureHelp"), ("linkedEditingRangeProvider", "linkedEditingRange"), ("monikerProvider", "moniker"), ("documentLinkProvider", "documentLink"), ("colorProvider", "documentColor"),
        ("callHierarchyProvider", "prepareCallHierarchy"), ("typeHierarchyProvider", "prepareTypeHierarchy"),
    ] {
        if on(k) {
            served.push((format!("textDocument/{m}"), pp.clone()));
        }
    }
    if on("renameProvider") {
        let mut q = pp.clone();
        q["newName"] = json!("zz");
        served.push(("textDocument/rename".into(), q));
        if caps["renameProvider"]["prepareProvider"] == true {
            served.push(("textDocument/prepareRename".into(), pp.clone()));
        }
    }
    if on("referencesProvider") {
        let mut q = pp.clone();
        q["context"] = json!({"includeDeclaration": true});
        served.push(("textDocument/references".into(), q));
    }
    if on("inlayHintProvider") {
        served.push(("textDocument/inlayHint".into(), json!({"textDocument": {"uri": URI}, "range": range((0, 0), (9, 0))})));
    }
    if on("codeActionProvider") {
        served.push(("textDocument/codeAction".into(), json!({"textDocument": {"uri": URI}, "range": range((0, 14), (0, 14)), "context": {"diagnostics": []}})));
    }
    if on("workspaceSymbolProvider") {
        served.push(("workspace/symbol".into(), json!({"query": ""})));
    }
    if on("documentFormattingProvider") {
        served.push(("textDocument/formatting".into(), json!({"textDocument": {"uri": URI}, "options": {"tabSize": 2, "insertSpaces": true}})));
    }
    if on("selectionRangeProvider") {
        served.push(("textDocument/selectionRange".into(), json!({"textDocument": {"uri": URI}, "positions": [{"line": 0, "character": 0}]})));
    }
    let st = &caps["semanticTokensProvider"];
    if st["full"] == true || st["full"].is_object() {
        served.push(("textDocument/semanticTokens/full".into(), doc_params(URI)));
    } else {
        return Err("full semantic tokens are not announced".into());
    }
    if st.get("range").map_or(false, |r| *r == true || r.is_object()) {
        served.push(("textDocument/semanticTokens/range".into(), json!({"textDocument": {"uri": URI}, "range": range((0, 0), (9, 0))})));
    }
    if st["full"]["delta"] == true {
        served.push(("textDocument/semanticTokens/full/delta".into(), json!({"textDocument": {"uri": URI}, "previousResultId": "x"})));
    }
    let n = served.len() as u64;
    for (m, p) in served {
        match s.request(&m, p)? {
            Ok(v) if v.is_null() => return Err(format!("{m} is announced but gives nothing")),
            Ok(_) => {}
            Err(e) => return Err(format!("{m} is announced but fails: {} {}", e.code, e.message)),
        }
    }
    let cmds = caps["executeCommandProvider"]["commands"].as_array().cloned().unwrap_or_default();
    if cmds.is_empty() {
        return Err("no commands are announced".into());
    }
    for c in cmds {
        let (a, shown) = doc::execute(ctx, c.as_str().unwrap_or(""), json!([URI, "@f4"]))?;
        if a.is_err() || shown.len() != 1 {
            return Err(format!("command {c} is announced but gives {a:?}, {} graphs", shown.len()));
        }
    }
    // The lenses' commands are announced ones.
    let l = ask_ok(ctx, "textDocument/codeLens", doc_params(URI))?;
    for l in l.as_array().unwrap_or(&vec![]) {
        if !caps["executeCommandProvider"]["commands"].as_array().map_or(false, |c| c.contains(&l["command"]["command"])) {
            return Err(format!("lens with command {}, which is not announced", l["command"]["command"]));
        }
    }
    // Code actions in the negotiated way.
    let acts = doc::code_actions(ctx, (0, 14), (0, 14))?;
    let [a] = &acts[..] else { return Err(format!("{} code actions on @f1", acts.len())) };
    if a.get("edit").map_or(false, |e| !e.is_null()) == lazy {
        return Err(format!("code action {} its edit", if lazy { "includes" } else { "lacks" }));
    }
    if lazy {
        let r = ask_ok(ctx, "codeAction/resolve", a.clone())?;
        if r.get("edit").map_or(true, |e| e.is_null()) {
            return Err("resolving gives no edit".into());
        }
    }
    // Roots.
    for (line, file, l) in [(0, "only1.cpp", 2), (2, "only2.cpp", 3), (4, "src/m.cpp", 4)] {
        let t = goto(ctx, "definition", (line, 14))?;
        let ext: Vec<(Option<String>, u64)> = t.locs.iter().filter(|x| x.0 != URI).map(|x| (uri_path(&x.0), x.1 .0 .0)).collect();
        let want: Vec<(Option<String>, u64)> = find_file(roots, file).map(|p| (Some(p), l)).into_iter().collect();
        if ext != want {
            return Err(format!("definition of the function proxied to {file}: {ext:?}, expected {want:?}"));
        }
    }
    if deep {
        // Everything else works as ever.
        let t = docs::FUNCS[3];
        ctx.server()?.notify("textDocument/didClose", doc_params(URI))?;
        doc::c05(ctx, t)?;
        doc::c16(ctx, t)?;
    }
    ctx.compared(n + 8);
    Ok(())
}

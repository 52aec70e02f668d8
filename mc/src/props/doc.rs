//! Properties of single documents: the reference model against every answer of the server.
use crate::engine::{Ctx, Verdict, URI};
use crate::lsp::*;
use crate::model::*;
use crate::session::{doc_params, pos_params};
use serde_json::{json, Value};

/// Loads the document; `None` if its meaning is not settled (survival was still observed).
fn enter(ctx: &mut Ctx, t: &str) -> Result<(Model, Vec<Value>, bool), String> {
    let d = ctx.load(t)?;
    let m = Model::new(t);
    let ok = !m.weird;
    if !ok {
        ctx.c.outside += 1;
    }
    ctx.sample(|| json!({"document": if t.chars().count() > 600 { t.chars().take(600).collect::<String>() + "..." } else { t.to_string() }, "symbols": m.syms.len(), "well_formed": m.well_formed}));
    Ok((m, d, ok))
}
fn at(p: Pos) -> String {
    format!("{}:{}", p.0, p.1)
}
fn is_semantic(d: &Value) -> bool {
    let m = d["message"].as_str().unwrap_or("");
    m.contains("undefined symbol") || m.contains("already defined") || m.contains("Failed to extract")
}

// ---- C03 ----
pub fn c03(ctx: &mut Ctx, t: &str) -> Verdict {
    let (m, diags, ok) = enter(ctx, t)?;
    let mut n = 0;
    // Ranges of diagnostics and structure always lie in the document.
    let inside = |r: Rng, what: &str| -> Verdict {
        if r.0 > r.1 || m.text.off(r.0).is_none() || m.text.off(r.1).is_none() {
            return Err(format!("{what}: {} is not a range of the document", show(&r)));
        }
        Ok(())
    };
    for d in &diags {
        // A diagnostic may concern a character of a line break (clients clamp it to the line end).
        let r = rng(&d["range"])?;
        let in_break = |p: Pos| m.text.lines.get(p.0 as usize).map_or(false, |l| p.1 < m.text.line_width(p.0 as usize) + (l.2 - l.1) as u64);
        if r.0 > r.1 || ![r.0, r.1].iter().all(|p| m.text.off(*p).is_some() || in_break(*p)) {
            return Err(format!("diagnostic: {} is not a range of the document", show(&r)));
        }
        n += 1;
    }
    if !ok {
        return Ok(());
    }
    let mut ps = m.positions();
    let lines = m.text.lines.len() as u64;
    for l in m.key_lines().into_iter().map(|l| l as u64) {
        let w = m.text.line_width(l as usize);
        ps.extend([(l, w + 2), (l, w + 17), (l, 1 << 20), (l, u32::MAX as u64)]);
    }
    ps.extend([(lines, 3), (lines + 1, 0), (u32::MAX as u64, 0), (u32::MAX as u64, u32::MAX as u64)]);
    for p in ps {
        let got = prepare(ctx, p)?;
        let want = m.at_pos(p).map(|o| m.rng(o.0));
        if m.splits_char(p) {
            // Rounded to one of the neighbouring characters.
            let l = m.at_pos((p.0, p.1 - 1)).map(|o| m.rng(o.0));
            let r = m.at_pos((p.0, p.1 + 1)).map(|o| m.rng(o.0));
            if got != l && got != r {
                return Err(format!("symbol at {} (inside a character): {got:?}, expected {l:?} or {r:?}", at(p)));
            }
        } else if got != want {
            return Err(format!("symbol at {}: got {}, expected {}", at(p), got.map_or("none".into(), |r| show(&r)), want.map_or("none".into(), |r| show(&r))));
        }
        n += 1;
    }
    // One cursor per occurrence: origin and targets in exact coordinates.
    for (s, id, _) in m.key_occs() {
        let sym = &m.syms[*id];
        let g = goto(ctx, "definition", m.text.pos(s.0))?;
        if !sym.defs.is_empty() && g.origin != vec![m.rng(*s)] && !g.origin.is_empty() {
            return Err(format!("origin of {} is {}, expected {}", sym.name, shows(&g.origin), show(&m.rng(*s))));
        }
        let (got, want) = (g.within(URI)?, rngs(&m, &sym.defs));
        if got != want {
            return Err(format!("definitions of {}: {}, expected {}", sym.name, shows(&got), shows(&want)));
        }
        n += 2;
    }
    for v in ask_ok(ctx, "textDocument/documentSymbol", doc_params(URI))?.as_array().unwrap_or(&vec![]) {
        inside(rng(&v["range"])?, "outline range")?;
        let r = rng(&v["selectionRange"])?;
        inside(r, "outline selection")?;
        let got = m.text.str((m.text.off(r.0).unwrap(), m.text.off(r.1).unwrap()));
        if Some(got.as_str()) != v["name"].as_str() {
            return Err(format!("outline entry {} selects {got:?}", v["name"]));
        }
        n += 1;
    }
    for h in hints(ctx, &m)? {
        if m.text.off(h.pos).is_none() {
            return Err(format!("hint at {} is outside the document", at(h.pos)));
        }
        for (v, u, r) in &h.links {
            if u != URI {
                continue;
            }
            inside(*r, "hint link")?;
            let got = m.text.str((m.text.off(r.0).unwrap(), m.text.off(r.1).unwrap()));
            if got != *v {
                return Err(format!("hint {v:?} links to {got:?}"));
            }
        }
        n += 1;
    }
    for l in ask_ok(ctx, "textDocument/codeLens", doc_params(URI))?.as_array().unwrap_or(&vec![]) {
        inside(rng(&l["range"])?, "lens")?;
        n += 1;
    }
    for f in ask_ok(ctx, "textDocument/foldingRange", doc_params(URI))?.as_array().unwrap_or(&vec![]) {
        let (a, b) = (f["startLine"].as_u64().unwrap_or(u64::MAX), f["endLine"].as_u64().unwrap_or(u64::MAX));
        if a > b || b >= lines {
            return Err(format!("folding range {f} is outside the document"));
        }
        n += 1;
    }
    ctx.compared(n);
    Ok(())
}

// ---- C04 ----
pub fn c04(ctx: &mut Ctx, t: &str) -> Verdict {
    let (m, _, _) = enter(ctx, t)?;
    let v = ask_ok(ctx, "textDocument/semanticTokens/full", doc_params(URI))?;
    let data = v["data"].as_array().ok_or_else(|| format!("no semantic tokens: {v}"))?;
    let d: Vec<u64> = data.iter().map(|x| x.as_u64().unwrap_or(u64::MAX)).collect();
    if d.len() % 5 != 0 {
        return Err("token data is not a multiple of five".into());
    }
    let legend = ctx_legend(ctx)?;
    let mut got: Vec<Option<String>> = vec![None; m.text.c.len()];
    let (mut line, mut col, mut min) = (0u64, 0u64, 0u64);
    for q in d.chunks(5) {
        if q[0] > 0 {
            line += q[0];
            col = 0;
            min = 0;
        }
        col += q[1];
        if q[2] == 0 {
            return Err(format!("empty token at {line}:{col}"));
        }
        if col < min {
            return Err(format!("tokens overlap at {line}:{col}"));
        }
        min = col + q[2];
        let (a, b) = (m.text.off((line, col)), m.text.off((line, col + q[2])));
        let (Some(a), Some(b)) = (a, b) else {
            return Err(format!("token {line}:{col}+{} is not within one line", q[2]));
        };
        let class = legend.get(q[3] as usize).ok_or_else(|| format!("token type {} not in the legend", q[3]))?;
        if q[4] != 0 {
            return Err(format!("undeclared token modifiers {}", q[4]));
        }
        for g in &mut got[a..b] {
            *g = Some(class.clone());
        }
    }
    let want = m.classes();
    for (i, w) in want.iter().enumerate() {
        let l = m.text.lines[m.text.line_of(i)];
        if i >= l.1 {
            continue; // line break characters have no colour
        }
        if got[i].as_deref() != *w {
            return Err(format!("character {:?} at {}: coloured {:?}, expected {:?}", m.text.c[i], at(m.text.pos(i)), got[i], w));
        }
    }
    ctx.compared(want.len() as u64 + 1);
    Ok(())
}
thread_local! { static LEGEND: std::cell::RefCell<Option<Vec<String>>> = const { std::cell::RefCell::new(None) }; }
fn ctx_legend(ctx: &mut Ctx) -> Result<Vec<String>, String> {
    if let Some(l) = LEGEND.with(|l| l.borrow().clone()) {
        return Ok(l);
    }
    let (_, r) = crate::session::Session::with_init(ctx.init.clone())?;
    let v: Vec<String> = r["capabilities"]["semanticTokensProvider"]["legend"]["tokenTypes"]
        .as_array()
        .ok_or("no legend announced")?
        .iter()
        .map(|x| x.as_str().unwrap_or("").to_string())
        .collect();
    LEGEND.with(|l| *l.borrow_mut() = Some(v.clone()));
    Ok(v)
}

// ---- C05 ----
pub fn c05(ctx: &mut Ctx, t: &str) -> Verdict {
    let (m, _, ok) = enter(ctx, t)?;
    if !ok {
        return Ok(());
    }
    let mut n = 0;
    for p in m.key_positions() {
        if m.splits_char(p) {
            continue;
        }
        for (what, role) in [("definition", Role::Def), ("declaration", Role::Decl)] {
            let g = goto(ctx, what, p)?;
            let got = g.within(URI)?;
            let (want, who) = match m.at_pos(p) {
                None => (vec![], "no symbol".to_string()),
                Some(o) => {
                    let s = &m.syms[o.1];
                    (rngs(&m, if role == Role::Def { &s.defs } else { &s.decls }), format!("{:?} {}", s.kind, s.name))
                }
            };
            if got != want {
                return Err(format!("{what} at {} ({who}): [{}], expected [{}]", at(p), shows(&got), shows(&want)));
            }
            n += 1;
        }
    }
    ctx.compared(n);
    Ok(())
}

// ---- C06 ----
pub fn c06(ctx: &mut Ctx, t: &str) -> Verdict {
    let (m, _, ok) = enter(ctx, t)?;
    if !ok {
        return Ok(());
    }
    let mut n = 0;
    for p in m.key_positions() {
        if m.splits_char(p) {
            continue;
        }
        let got = references(ctx, p, false)?.within(URI)?;
        let o = m.at_pos(p);
        let want = o.map_or(vec![], |o| rngs(&m, &m.syms[o.1].uses));
        if got != want {
            let who = o.map_or("no symbol".into(), |o| format!("{:?} {}", m.syms[o.1].kind, m.syms[o.1].name));
            return Err(format!("references at {} ({who}): [{}], expected [{}]", at(p), shows(&got), shows(&want)));
        }
        n += 1;
        // With declarations asked for: the uses, possibly plus declarations and definitions.
        let got = references(ctx, p, true)?.within(URI)?;
        let all = o.map_or(vec![], |o| rngs(&m, &m.syms[o.1].all()));
        let mut dedup = got.clone();
        dedup.dedup();
        if dedup != got || !want.iter().all(|r| got.contains(r)) || !got.iter().all(|r| all.contains(r)) {
            return Err(format!("references with declarations at {}: [{}], uses [{}], all [{}]", at(p), shows(&got), shows(&want), shows(&all)));
        }
        n += 1;
    }
    ctx.compared(n);
    Ok(())
}

// ---- C08 ----
pub fn c08(ctx: &mut Ctx, t: &str) -> Verdict {
    let (m, diags, ok) = enter(ctx, t)?;
    if !ok || !m.well_formed {
        ctx.c.outside += ok as u64;
        return Ok(());
    }
    let mut want = m.semantic_diags();
    for d in &diags {
        let r = rng(&d["range"])?;
        let msg = d["message"].as_str().unwrap_or("");
        let first = match d.get("relatedInformation").and_then(|x| x.as_array()) {
            Some(a) if !a.is_empty() => {
                if a[0]["location"]["uri"] != URI {
                    return Err(format!("related information in another document: {}", a[0]));
                }
                Some(rng(&a[0]["location"]["range"])?)
            }
            _ => None,
        };
        let i = want.iter().position(|w| w.0 == r && w.2 == first && msg.contains(&w.1));
        let Some(i) = i else {
            return Err(format!("unexpected diagnostic {:?} at {} (first {:?}); still expected: {:?}", msg, show(&r), first, want));
        };
        // The three kinds are told apart.
        let w = want.remove(i);
        let quoted = msg.contains(&format!("`{}`", w.1));
        if !quoted {
            return Err(format!("diagnostic {msg:?} does not name `{}`", w.1));
        }
    }
    if !want.is_empty() {
        return Err(format!("missing diagnostics: {want:?}"));
    }
    ctx.compared(diags.len() as u64 + 1);
    Ok(())
}

// ---- C09 ----
pub fn c09(ctx: &mut Ctx, t: &str) -> Verdict {
    let (m, diags, ok) = enter(ctx, t)?;
    if !ok {
        return Ok(());
    }
    let syntax: Vec<&Value> = diags.iter().filter(|d| !is_semantic(d)).collect();
    if m.well_formed && !syntax.is_empty() {
        return Err(format!("well-formed, but reported: {}", syntax[0]));
    }
    if !m.well_formed && syntax.is_empty() {
        return Err("malformed, but no syntax diagnostic".into());
    }
    ctx.compared(1);
    Ok(())
}
/// Locality: all good statements of a document with a broken line stay visible.
pub fn c09_local(ctx: &mut Ctx, t: &str) -> Verdict {
    c09(ctx, t)?;
    let m = Model::new(t);
    if m.weird {
        return Ok(());
    }
    outline(ctx, &m)?;
    c04(ctx, t)?;
    // Navigation: every definition and declaration of the good statements is found from itself.
    for (s, id, role) in &m.occs {
        let (what, list) = match role {
            Role::Def => ("definition", &m.syms[*id].defs),
            Role::Decl => ("declaration", &m.syms[*id].decls),
            Role::Use => continue,
        };
        let got = goto(ctx, what, m.text.pos(s.0))?.within(URI)?;
        if got != rngs(&m, list) {
            return Err(format!("{what} of {} next to a broken line: [{}], expected [{}]", m.syms[*id].name, shows(&got), shows(&rngs(&m, list))));
        }
    }
    ctx.compared(m.occs.len() as u64 + 1);
    Ok(())
}

// ---- C10 ----
pub fn c10(ctx: &mut Ctx, t: &str) -> Verdict {
    let (m, _, ok) = enter(ctx, t)?;
    if !ok {
        return Ok(());
    }
    let mut n = 0;
    let names: std::collections::HashSet<&str> = m.toks.iter().map(|t| t.t.as_str()).collect();
    let mut k = 0;
    for o in m.key_occs() {
        let s = &m.syms[o.1];
        let sig = s.kind.sigil();
        // Fresh names, with and without sigil, of every allowed shape.
        let shapes: &[&str] = if s.kind == SymKind::Dbg { &["zq", "_z", "z9:q", "ζ", "77"] } else { &["zq", "_z9", "z::q", "ζ𝒵"] };
        for given in [true, false] {
            let shape = shapes[k % shapes.len()];
            k += 1;
            let full = format!("{sig}{shape}");
            if names.contains(full.as_str()) {
                continue;
            }
            let asked = if given { full.clone() } else { shape.to_string() };
            let p = if given { m.text.pos(o.0 .0) } else { m.text.pos(o.0 .1 - 1) };
            match rename(ctx, p, &asked)? {
                Err(e) => return Err(format!("rename of {} to {asked:?} refused: {}", s.name, e.message)),
                Ok(e) => {
                    let got = apply(&m.text, &e)?;
                    let want = replace(&m.text, s.all().into_iter().map(|sp| (sp, full.clone())).collect());
                    if got != want {
                        return Err(format!("rename of {:?} {} at {} to {asked:?} gives {got:?}, expected {want:?}", s.kind, s.name, at(p)));
                    }
                    n += 1;
                }
            }
        }
    }
    // Away from symbols a rename is refused.
    for p in m.key_positions() {
        if m.at_pos(p).is_none() && !m.splits_char(p) {
            if let Ok(e) = rename(ctx, p, "zq")? {
                return Err(format!("rename at {} (no symbol) gives {} edits", at(p), e.len()));
            }
            n += 1;
        }
    }
    ctx.compared(n);
    Ok(())
}
/// New names of every shape for every kind: accepted iff they lex as one identifier of the kind.
pub fn c10_name(ctx: &mut Ctx, kind: SymKind, name: &str) -> Verdict {
    let t = "@gv = 1\ndeclare void @fn()\n!dbg = 0\ndefine void @f(int32 %lv) {\nlbl:\n  foo @gv, @fn, %lv !dbg\n  br lbl\n}\n";
    let p = match kind {
        SymKind::GlobalVar => (0, 1),
        SymKind::Function => (1, 14),
        SymKind::Dbg => (2, 2),
        SymKind::Local => (3, 23),
        SymKind::Label => (4, 0),
    };
    let (m, _, _) = enter(ctx, t)?;
    ctx.state(&format!("{kind:?} {name}"));
    let o = m.at_pos(p).expect("template");
    let s = &m.syms[o.1];
    assert!(s.kind == kind);
    let bare = name.strip_prefix(kind.sigil()).unwrap_or(name);
    let full = format!("{}{bare}", kind.sigil());
    let starts_digit = bare.chars().next().map_or(false, |c| c.is_numeric());
    let valid = !bare.is_empty() && lexes_as(&full, kind.tok()) && (!starts_digit || kind == SymKind::Dbg);
    let relative = name.starts_with('+') || name.starts_with('-');
    match rename(ctx, p, name)? {
        Err(e) => {
            if valid && !relative {
                return Err(format!("rename of a {kind:?} to the valid name {name:?} refused: {}", e.message));
            }
        }
        Ok(e) => {
            if !valid {
                return Err(format!("rename of a {kind:?} to {name:?} accepted: {e:?}"));
            }
            let got = apply(&m.text, &e)?;
            let want = replace(&m.text, s.all().into_iter().map(|sp| (sp, full.clone())).collect());
            if got != want {
                return Err(format!("rename of a {kind:?} to {name:?} gives {got:?}"));
            }
        }
    }
    ctx.compared(1);
    Ok(())
}

// ---- C11 ----
/// The text after shifting, `Err` if it has to be refused, `None` if not settled.
pub fn shifted(m: &Model, kind: SymKind, scope: Option<usize>, from: i64, by: i64) -> Option<Result<String, ()>> {
    let mut e = vec![];
    for s in m.syms.iter().filter(|s| s.kind == kind && s.scope == scope) {
        match s.number() {
            Num::None => {}
            Num::Unclear => return None,
            Num::Some(pre, n) => {
                if n < from {
                    continue;
                }
                match n.checked_add(by) {
                    Some(k) if k >= 0 => e.extend(s.all().into_iter().map(|sp| (sp, format!("{pre}{k}")))),
                    _ => return Some(Err(())),
                }
            }
        }
    }
    Some(Ok(replace(&m.text, e)))
}
pub fn c11(ctx: &mut Ctx, t: &str, shifts: &[&str]) -> Verdict {
    let (m, _, ok) = enter(ctx, t)?;
    if !ok {
        return Ok(());
    }
    let mut n = 0;
    let shifts = if m.huge() { &shifts[..2] } else { shifts };
    for o in m.key_occs() {
        let s = &m.syms[o.1];
        for (k, sh) in shifts.iter().enumerate() {
            let p = m.text.pos(if k % 2 == 0 { o.0 .0 } else { o.0 .1 - 1 });
            let amount = sh[1..].parse::<i64>().ok().filter(|_| sh[1..].starts_with(|c: char| c.is_ascii_digit()));
            let by = amount.and_then(|a| if sh.starts_with('-') { a.checked_neg() } else { Some(a) });
            let want = match (s.number(), by) {
                (Num::Unclear, _) => continue,
                (Num::None, _) | (_, None) => Err(()),
                (Num::Some(_, nr), Some(by)) => match shifted(&m, s.kind, s.scope, nr, by) {
                    None => continue,
                    Some(w) => w,
                },
            };
            match (rename(ctx, p, sh)?, want) {
                (Err(_), Err(())) => {}
                (Ok(e), Ok(w)) => {
                    let got = apply(&m.text, &e)?;
                    if got != w {
                        return Err(format!("relative rename {sh} of {:?} {} at {} gives {got:?}, expected {w:?}", s.kind, s.name, at(p)));
                    }
                    if *sh == "+7" && o.2 == Role::Def {
                        // ... and back again.
                        ctx.load(&w)?;
                        let m2 = Model::new(&w);
                        let o2 = &m2.occs[m.occs.iter().position(|x| x.0 == o.0).unwrap()];
                        let back = rename(ctx, m2.text.pos(o2.0 .0), "-7")?.map_err(|e| format!("shifting {} back is refused: {}", s.name, e.message))?;
                        if apply(&m2.text, &back)? != t {
                            return Err(format!("{} shifted by +7 and -7 is not the same text", s.name));
                        }
                        ctx.load(t)?;
                    }
                }
                (Err(e), Ok(_)) => return Err(format!("relative rename {sh} of {} refused: {}", s.name, e.message)),
                (Ok(e), Err(())) => return Err(format!("relative rename {sh} of {} should be refused, gives {e:?}", s.name)),
            }
            n += 1;
        }
    }
    ctx.compared(n);
    Ok(())
}

// ---- C12 ----
pub fn code_actions(ctx: &mut Ctx, a: Pos, b: Pos) -> Result<Vec<Value>, String> {
    let r = json!({"start": {"line": a.0, "character": a.1}, "end": {"line": b.0, "character": b.1}});
    code_actions_in(ctx, a, r, json!({"diagnostics": []}))
}
fn code_actions_in(ctx: &mut Ctx, a: Pos, r: Value, context: Value) -> Result<Vec<Value>, String> {
    let v = ask(ctx, "textDocument/codeAction", json!({"textDocument": {"uri": URI}, "range": r, "context": context}))?
        .map_err(|e| format!("codeAction at {} failed: {}", at(a), e.message))?;
    Ok(v.as_array().cloned().unwrap_or_default())
}
pub fn init_lazy() -> Value {
    json!({"processId": null, "rootUri": null, "capabilities": {"textDocument": {"codeAction": {"dataSupport": true, "resolveSupport": {"properties": ["edit"]}}}}})
}
/// `lazy`: for a client that resolves edits itself.
pub fn c12(ctx: &mut Ctx, t: &str, lazy: bool) -> Verdict {
    ctx.set_init(if lazy { init_lazy() } else { crate::session::default_init() });
    let (m, _, ok) = enter(ctx, t)?;
    if !ok {
        return Ok(());
    }
    let mut n = 0;
    for p in m.key_positions() {
        if m.splits_char(p) {
            continue;
        }
        let sym = m.at_pos(p).map(|o| &m.syms[o.1]);
        let (want, name) = match sym.map(|s| (s, s.number())) {
            None => (None, String::new()),
            Some((s, Num::None)) => (None, s.name.clone()),
            Some((_, Num::Unclear)) => continue,
            Some((s, Num::Some(_, nr))) => match shifted(&m, s.kind, s.scope, nr, 1) {
                None | Some(Err(())) => continue,
                Some(Ok(w)) => (Some(w), s.name.clone()),
            },
        };
        let acts = code_actions(ctx, p, p)?;
        let acts0 = acts.clone();
        match want {
            None => {
                if !acts.is_empty() {
                    return Err(format!("action offered at {} ({name:?} is not a numbered symbol): {}", at(p), acts[0]["title"]));
                }
            }
            Some(w) => {
                let [act] = &acts[..] else {
                    return Err(format!("{} actions offered on {name} at {}", acts.len(), at(p)));
                };
                if act.get("title").and_then(|t| t.as_str()).map_or(true, |t| t.is_empty()) {
                    return Err("action without title".into());
                }
                let has_edit = act.get("edit").map_or(false, |e| !e.is_null());
                if has_edit == lazy {
                    return Err(format!("edit {} for a client that {} resolve it lazily", if has_edit { "included" } else { "missing" }, if lazy { "can" } else { "cannot" }));
                }
                let act = if lazy {
                    let r = ask_ok(ctx, "codeAction/resolve", act.clone())?;
                    if r["title"] != act["title"] {
                        return Err("resolving changed the title".into());
                    }
                    r
                } else {
                    act.clone()
                };
                let got = apply(&m.text, &edits(&act["edit"], URI)?)?;
                if got != w {
                    return Err(format!("action on {name} at {} gives {got:?}, expected {w:?}", at(p)));
                }
                let rn = rename(ctx, p, "+1")?.map_err(|e| format!("rename +1 refused: {}", e.message))?;
                if apply(&m.text, &rn)? != w {
                    return Err(format!("rename +1 of {name} differs from the action"));
                }
            }
        }
        // A non-empty selection gets no such action.
        if p.1 < m.text.line_width(p.0 as usize) && n % 3 == 0 {
            let acts = code_actions(ctx, p, (p.0, p.1 + 1))?;
            if !acts.is_empty() {
                return Err(format!("action offered for a non-empty selection at {}", at(p)));
            }
        }
        if n % 3 == 1 && (p.0 as usize) + 1 < m.text.lines.len() {
            // To the same column of the next line.
            let q = (p.0 + 1, p.1.min(m.text.line_width(p.0 as usize + 1)));
            if !code_actions(ctx, p, q)?.is_empty() {
                return Err(format!("action offered for a selection from {} to {}", at(p), at(q)));
            }
        }
        if n % 3 == 2 {
            // Why and with which diagnostics the editor asks does not matter.
            let r = json!({"start": {"line": p.0, "character": p.1}, "end": {"line": p.0, "character": p.1}});
            let kind = 1 + n / 3 % 2;
            let other = code_actions_in(ctx, p, r.clone(), json!({"diagnostics": [{"range": r, "message": "Use of undefined symbol `@x`", "severity": 1}], "triggerKind": kind}))?;
            if super::proto::normal(&json!(other)) != super::proto::normal(&json!(acts0)) {
                return Err(format!("with a diagnostic and trigger kind {kind}, the actions at {} are {other:?} instead of {acts0:?}", at(p)));
            }
        }
        n += 1;
    }
    ctx.compared(n);
    Ok(())
}

// ---- C13 ----
/// Edges of a DOT digraph.
pub fn dot_edges(src: &str) -> Result<Vec<(String, String)>, String> {
    #[derive(PartialEq, Debug, Clone)]
    enum T {
        /// `true`: quoted
        Id(String, bool),
        Arrow,
        P(char),
    }
    let c: Vec<char> = src.chars().collect();
    let mut t = vec![];
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '/' if c.get(i + 1) == Some(&'/') => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            '/' if c.get(i + 1) == Some(&'*') => {
                i += 2;
                while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') {
                    i += 1;
                }
                i += 2;
            }
            '#' if i == 0 || c[i - 1] == '\n' => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            '"' => {
                let mut s = String::new();
                i += 1;
                loop {
                    match c.get(i) {
                        None => return Err("unterminated string in the graph".into()),
                        Some('"') => break,
                        Some('\\') if c.get(i + 1) == Some(&'"') => {
                            s.push('"');
                            i += 2;
                        }
                        Some(&x) => {
                            s.push(x);
                            i += 1;
                        }
                    }
                }
                i += 1;
                t.push(T::Id(s, true));
            }
            '-' if c.get(i + 1) == Some(&'>') => {
                t.push(T::Arrow);
                i += 2;
            }
            '-' if c.get(i + 1) == Some(&'-') => return Err("undirected edge in the graph".into()),
            x if x.is_whitespace() => i += 1,
            x if x.is_ascii_alphanumeric() || x == '_' || x == '.' || (x as u32) >= 0x80 => {
                let mut s = String::new();
                while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_' || c[i] == '.' || (c[i] as u32) >= 0x80) {
                    s.push(c[i]);
                    i += 1;
                }
                let number = s.chars().all(|c| c.is_ascii_digit() || c == '.');
                if !number && (s.contains('.') || s.starts_with(|c: char| c.is_ascii_digit())) {
                    return Err(format!("{s:?} is no name in the graph"));
                }
                t.push(T::Id(s, false));
            }
            x if "{}[];=,".contains(x) => {
                t.push(T::P(x));
                i += 1;
            }
            x => return Err(format!("unexpected {x:?} in the graph")),
        }
    }
    let mut i = 0;
    let strict = t.get(i) == Some(&T::Id("strict".into(), false));
    if strict {
        i += 1;
    }
    if t.get(i) != Some(&T::Id("digraph".into(), false)) {
        return Err("not a digraph".into());
    }
    i += 1;
    if matches!(t.get(i), Some(T::Id(..))) {
        i += 1;
    }
    if t.get(i) != Some(&T::P('{')) || t.last() != Some(&T::P('}')) {
        return Err("graph without body".into());
    }
    let body = &t[i + 1..t.len() - 1];
    let mut edges = vec![];
    let mut i = 0;
    while i < body.len() {
        match &body[i] {
            T::P(';') => i += 1,
            T::P('[') => {
                while i < body.len() && body[i] != T::P(']') {
                    i += 1;
                }
                i += 1;
            }
            T::P('{') | T::Id(..) => {
                // A chain of node groups.
                let mut prev: Option<Vec<String>> = None;
                loop {
                    let group = match body.get(i) {
                        Some(T::Id(s, quoted)) => {
                            i += 1;
                            let word = !quoted && ["node", "edge", "graph", "digraph", "subgraph", "strict"].contains(&s.to_lowercase().as_str());
                            if word && (prev.is_some() || body.get(i) != Some(&T::P('['))) {
                                return Err(format!("the keyword {s:?} as a node of the graph"));
                            }
                            vec![s.clone()]
                        }
                        Some(T::P('{')) => {
                            let mut g = vec![];
                            i += 1;
                            while i < body.len() && body[i] != T::P('}') {
                                if let T::Id(s, _) = &body[i] {
                                    // A group is a subgraph: a node is in it once.
                                    if !g.contains(s) {
                                        g.push(s.clone());
                                    }
                                }
                                i += 1;
                            }
                            i += 1;
                            g
                        }
                        _ => return Err("edge without target in the graph".into()),
                    };
                    if let Some(p) = &prev {
                        for a in p {
                            for b in &group {
                                edges.push((a.clone(), b.clone()));
                            }
                        }
                    }
                    if body.get(i) == Some(&T::P('=')) {
                        i += 2;
                        break;
                    }
                    if body.get(i) == Some(&T::Arrow) {
                        i += 1;
                        prev = Some(group);
                    } else {
                        break;
                    }
                }
            }
            x => return Err(format!("unexpected {x:?} in the graph")),
        }
    }
    edges.sort();
    let all = edges.len();
    edges.dedup();
    // Only a strict graph merges the edges between the same two nodes.
    if !strict && edges.len() != all {
        return Err("an edge is drawn more than once".into());
    }
    Ok(edges)
}
/// Executes a command; returns the answer and the graphs shown meanwhile (each is acknowledged).
pub fn execute(ctx: &mut Ctx, cmd: &str, args: Value) -> Result<(Result<Value, crate::session::RpcErr>, Vec<Value>), String> {
    let s = ctx.server()?;
    let id = s.fresh_id();
    s.feed(json!({"jsonrpc": "2.0", "id": id, "method": "workspace/executeCommand", "params": {"command": cmd, "arguments": args}}));
    s.run()?;
    let mut shown = vec![];
    for _ in 0..8 {
        let reqs = s.take_server_requests();
        if reqs.is_empty() {
            break;
        }
        for r in reqs {
            if r["method"] != "hyperir/showDot" {
                return Err(format!("unexpected request {} to the client", r["method"]));
            }
            s.reply(&r["id"], json!({}))?;
            shown.push(r["params"].clone());
        }
    }
    let a = s.answer(id, "workspace/executeCommand")?;
    Ok((a, shown))
}
fn check_graph(m: &Model, name: &str, shown: &[Value]) -> Verdict {
    let [g] = shown else {
        return Err(format!("{} graphs shown for {name}", shown.len()));
    };
    let title = g["title"].as_str().unwrap_or("");
    let names_it = title.match_indices(name).any(|(i, _)| !title[i + name.len()..].starts_with(|c: char| c.is_alphanumeric() || c == '_'));
    if !names_it {
        return Err(format!("graph of {name} is titled {}", g["title"]));
    }
    let got = dot_edges(g["dotGraph"].as_str().ok_or("no graph source")?)?;
    let bodies: Vec<_> = m.bodies.iter().filter(|b| b.name.0 == name).map(|b| b.edges()).collect();
    if !bodies.contains(&got) {
        return Err(format!("graph of {name} has edges {got:?}, expected {:?}", bodies[0]));
    }
    Ok(())
}
pub fn c13(ctx: &mut Ctx, t: &str) -> Verdict {
    let (m, _, ok) = enter(ctx, t)?;
    if !ok {
        return Ok(());
    }
    let mut n = 0;
    let mut names: Vec<&str> = m.bodies.iter().map(|b| b.name.0.as_str()).collect();
    names.sort();
    names.dedup();
    for name in &names {
        let (a, shown) = execute(ctx, "visualize-cfg", json!([URI, name]))?;
        if let Err(e) = a {
            return Err(format!("visualizing {name} failed: {}", e.message));
        }
        check_graph(&m, name, &shown)?;
        n += 1;
    }
    // Everything else named in the document is no defined function.
    let mut others: Vec<String> = m.toks.iter().filter(|t| t.k == K::Global).map(|t| t.t.clone()).collect();
    for name in &names {
        let bare = &name[1..];
        others.extend([bare.to_string(), format!("@{name}"), format!("{name}x"), format!(" {name}"), format!("{name} "), format!("%{bare}"), format!("{name}()"), name.to_uppercase(), format!("{name}\u{0}")]);
        let mut c = name.chars();
        c.next_back();
        others.push(c.as_str().to_string());
    }
    others.push("@missing".into());
    others.push("".into());
    others.retain(|x| !names.contains(&x.as_str()));
    others.sort();
    others.dedup();
    for o in others {
        let (a, shown) = execute(ctx, "visualize-cfg", json!([URI, o]))?;
        if a.is_ok() || !shown.is_empty() {
            return Err(format!("visualizing {o:?}, which is no defined function: {a:?}, {} graphs", shown.len()));
        }
        n += 1;
    }
    ctx.compared(n);
    Ok(())
}

// ---- inlay hints ----
pub struct Hint {
    pub pos: Pos,
    pub text: String,
    /// (text, uri, range) of the parts with a link
    pub links: Vec<(String, String, Rng)>,
    pub raw: Value,
}
pub fn hints(ctx: &mut Ctx, m: &Model) -> Result<Vec<Hint>, String> {
    let l = m.text.lines.len() - 1;
    let r = json!({"start": {"line": 0, "character": 0}, "end": {"line": l, "character": m.text.line_width(l)}});
    let v = ask_ok(ctx, "textDocument/inlayHint", json!({"textDocument": {"uri": URI}, "range": r}))?;
    // A part of the document: at least the hints in it, and no hint the whole document lacks.
    let none = vec![];
    let all = v.as_array().unwrap_or(&none);
    if l < 40 && !all.is_empty() {
        for k in 0..=l {
            let (a, b) = if k < l { ((k, 0), (k + 1, 0)) } else { ((0, 1), (l.max(1) - 1, 1)) };
            if a > b {
                continue;
            }
            let r = json!({"start": {"line": a.0, "character": a.1}, "end": {"line": b.0, "character": b.1}});
            let part = ask_ok(ctx, "textDocument/inlayHint", json!({"textDocument": {"uri": URI}, "range": r}))?;
            let part = part.as_array().unwrap_or(&none);
            if let Some(h) = part.iter().find(|h| !all.contains(h)) {
                return Err(format!("asked about {a:?} to {b:?}, there is a hint {h}, which the whole document lacks"));
            }
            for h in all {
                let p = (h["position"]["line"].as_u64().unwrap_or(0) as usize, h["position"]["character"].as_u64().unwrap_or(0) as usize);
                if a <= p && p < b && !part.contains(h) {
                    return Err(format!("asked about {a:?} to {b:?}, the hint {h} is missing"));
                }
            }
        }
    }
    let mut out = vec![];
    for h in v.as_array().unwrap_or(&vec![]) {
        let mut links = vec![];
        let text = match &h["label"] {
            Value::String(s) => s.clone(),
            Value::Array(a) => {
                let mut s = String::new();
                for p in a {
                    let v = p["value"].as_str().ok_or("hint part without text")?;
                    s += v;
                    if let Some(loc) = p.get("location").filter(|l| !l.is_null()) {
                        links.push((v.to_string(), loc["uri"].as_str().unwrap_or("").to_string(), rng(&loc["range"])?));
                    }
                }
                s
            }
            x => return Err(format!("hint label {x}")),
        };
        out.push(Hint { pos: pos(&h["position"])?, text, links, raw: h.clone() });
    }
    Ok(out)
}

// ---- C14 ----
pub fn c14(ctx: &mut Ctx, t: &str) -> Verdict {
    let (m, _, ok) = enter(ctx, t)?;
    if !ok {
        return Ok(());
    }
    let mut hs = hints(ctx, &m)?;
    let mut n = 0;
    for b in &m.bodies {
        for blk in &b.blocks {
            let Some((label, _, colon)) = &blk.label else { continue };
            let mut want: Vec<(String, Rng)> = vec![];
            for pred in &b.blocks {
                let Some((pl, ps, _)) = &pred.label else { continue };
                if pred.instrs.iter().any(|i| i.branching() && i.refs.iter().any(|r| r.0 == *label)) {
                    want.push((pl.clone(), m.rng(*ps)));
                }
            }
            want.sort();
            let p = m.text.pos(*colon);
            let mine: Vec<Hint> = take(&mut hs, p);
            n += 1;
            if want.is_empty() {
                if !mine.is_empty() {
                    return Err(format!("block {label} has no predecessors but the hint {:?}", mine[0].text));
                }
                continue;
            }
            let [h] = &mine[..] else {
                return Err(format!("block {label} at {} has {} incoming hints", at(p), mine.len()));
            };
            let mut got: Vec<(String, Rng)> = vec![];
            for (v, u, r) in &h.links {
                if u != URI {
                    return Err(format!("incoming hint of {label} links to {u}"));
                }
                got.push((v.clone(), *r));
            }
            got.sort();
            if got != want {
                return Err(format!("incoming edges of {label}: {got:?}, expected {want:?}"));
            }
            let plain: String = h.raw["label"].as_array().into_iter().flatten().filter(|p| p.get("location").map_or(true, |l| l.is_null())).map(|p| p["value"].as_str().unwrap_or("")).collect();
            if b.blocks.iter().filter_map(|b| b.label.as_ref()).any(|l| l.0.chars().count() > 3 && plain.contains(&l.0)) {
                return Err(format!("incoming hint of {label} names a block without link: {:?}", h.text));
            }
        }
        let p = m.text.pos(b.range.1);
        let mine = take(&mut hs, p);
        let [h] = &mine[..] else {
            return Err(format!("{} hints at the end of function {} ({})", mine.len(), b.name.0, at(p)));
        };
        if h.text != b.name.0 || h.links.len() != 1 || h.links[0].1 != URI || h.links[0].2 != m.rng(b.name.1) {
            return Err(format!("hint at the end of {}: {:?} {:?}", b.name.0, h.text, h.links));
        }
        n += 1;
    }
    // Whatever is left must stand right after a debug reference (backtraces, see C15).
    let refs: Vec<Pos> = m.toks.iter().filter(|t| t.k == K::Dbg).map(|t| m.text.pos(t.e)).collect();
    if let Some(h) = hs.iter().find(|h| !refs.contains(&h.pos)) {
        return Err(format!("stray hint {:?} at {}", h.text, at(h.pos)));
    }
    ctx.compared(n + 1);
    Ok(())
}
pub fn take(hs: &mut Vec<Hint>, p: Pos) -> Vec<Hint> {
    let mut v = vec![];
    let mut i = 0;
    while i < hs.len() {
        if hs[i].pos == p {
            v.push(hs.remove(i));
        } else {
            i += 1;
        }
    }
    v
}

// ---- C16 ----
/// Flattened outline: (name, kind, full range, selection)
fn flat(v: &Value, out: &mut Vec<(String, u64, Rng, Rng)>) -> Verdict {
    for s in v.as_array().unwrap_or(&vec![]) {
        let name = s["name"].as_str().unwrap_or("").to_string();
        let kind = s["kind"].as_u64().unwrap_or(0);
        if s.get("location").is_some() {
            let r = rng(&s["location"]["range"])?;
            out.push((name, kind, r, r));
        } else {
            out.push((name, kind, rng(&s["range"])?, rng(&s["selectionRange"])?));
        }
        if let Some(c) = s.get("children") {
            flat(c, out)?;
        }
    }
    Ok(())
}
pub fn outline(ctx: &mut Ctx, m: &Model) -> Verdict {
    let v = ask_ok(ctx, "textDocument/documentSymbol", doc_params(URI))?;
    let mut got = vec![];
    flat(&v, &mut got)?;
    let mut want: Vec<(String, u64, Rng, Rng)> = vec![];
    for s in m.syms.iter().filter(|s| s.kind == SymKind::GlobalVar) {
        for d in &s.defs {
            want.push((s.name.clone(), 14, m.rng(*d), m.rng(*d)));
        }
    }
    for b in &m.bodies {
        want.push((b.name.0.clone(), 12, m.rng(b.range), m.rng(b.name.1)));
    }
    let key = |v: &[(String, u64, Rng, Rng)]| {
        let mut k: Vec<_> = v.iter().map(|x| (x.0.clone(), x.1, x.3)).collect();
        k.sort();
        k
    };
    if key(&got) != key(&want) {
        return Err(format!("outline {:?}, expected {:?}", key(&got), key(&want)));
    }
    for g in &got {
        if !(g.2 .0 <= g.3 .0 && g.3 .1 <= g.2 .1) {
            return Err(format!("outline entry {} selects {} outside its range {}", g.0, show(&g.3), show(&g.2)));
        }
        if g.1 == 12 && !want.contains(g) {
            return Err(format!("outline entry {} covers {}", g.0, show(&g.2)));
        }
    }
    Ok(())
}
pub fn c16(ctx: &mut Ctx, t: &str) -> Verdict {
    let (m, _, ok) = enter(ctx, t)?;
    if !ok {
        return Ok(());
    }
    outline(ctx, &m)?;
    let v = ask_ok(ctx, "textDocument/foldingRange", doc_params(URI))?;
    let mut got: Vec<(u64, u64)> = vec![];
    for f in v.as_array().unwrap_or(&vec![]) {
        got.push((f["startLine"].as_u64().ok_or("no startLine")?, f["endLine"].as_u64().ok_or("no endLine")?));
    }
    got.sort();
    let mut want = vec![];
    for b in &m.bodies {
        want.push((m.text.pos(b.range.0).0, m.text.pos(b.range.1).0));
        for blk in &b.blocks {
            want.push((m.text.pos(blk.start).0, m.text.pos(blk.end).0));
        }
    }
    want.sort();
    if got != want {
        return Err(format!("folding ranges {got:?}, expected {want:?}"));
    }
    let v = ask_ok(ctx, "textDocument/codeLens", doc_params(URI))?;
    let mut want: Vec<(Rng, String)> = m
        .syms
        .iter()
        .filter(|s| s.kind == SymKind::Function && s.defs.len() == 1)
        .map(|s| (m.rng(s.defs[0]), s.name.clone()))
        .collect();
    for l in v.as_array().unwrap_or(&vec![]) {
        let r = rng(&l["range"])?;
        let Some(i) = want.iter().position(|w| w.0 == r) else {
            return Err(format!("unexpected lens at {}", show(&r)));
        };
        let (_, name) = want.remove(i);
        let cmd = l["command"]["command"].as_str().ok_or("lens without command")?;
        let (a, shown) = execute(ctx, cmd, l["command"]["arguments"].clone())?;
        if let Err(e) = a {
            return Err(format!("lens of {name} fails: {}", e.message));
        }
        check_graph(&m, &name, &shown).map_err(|e| format!("lens of {name}: {e}"))?;
    }
    if !want.is_empty() {
        return Err(format!("no lens for {want:?}"));
    }
    ctx.compared(got.len() as u64 + 2);
    Ok(())
}

// ---- C18 ----
pub fn c18(ctx: &mut Ctx, t: &str) -> Verdict {
    let (m, _, _) = enter(ctx, t)?;
    let mut n = 0;
    let fresh = "zz_fresh";
    for p in m.positions() {
        let pr = prepare(ctx, p)?;
        let rn = rename(ctx, p, fresh)?;
        let def = goto(ctx, "definition", p)?;
        let dec = goto(ctx, "declaration", p)?;
        let refs = references(ctx, p, false)?;
        n += 1;
        let Some(pr) = pr else {
            if let Ok(e) = rn {
                return Err(format!("at {}: rename works ({} edits) where prepare-rename finds nothing", at(p), e.len()));
            }
            for (w, g) in [("definition", &def), ("declaration", &dec), ("references", &refs)] {
                if !g.locs.is_empty() {
                    return Err(format!("at {}: {w} finds something where prepare-rename finds nothing", at(p)));
                }
            }
            continue;
        };
        let e = match rn {
            Err(e) => return Err(format!("at {}: rename refused ({}) where prepare-rename offers {}", at(p), e.message, show(&pr))),
            Ok(e) => e,
        };
        let mut er: Vec<Rng> = e.iter().map(|e| e.0).collect();
        er.sort();
        let (d, c, r) = (def.within(URI)?, dec.within(URI)?, refs.within(URI)?);
        let mut all: Vec<Rng> = d.iter().chain(&c).chain(&r).copied().collect();
        all.sort();
        if er != all {
            return Err(format!("at {}: rename edits [{}], but definitions [{}] declarations [{}] references [{}]", at(p), shows(&er), shows(&d), shows(&c), shows(&r)));
        }
        if !er.contains(&pr) {
            return Err(format!("at {}: prepared range {} is not among the edits [{}]", at(p), show(&pr), shows(&er)));
        }
        for g in [&def, &dec] {
            if let Some(o) = g.origin.iter().find(|o| **o != pr) {
                return Err(format!("at {}: origin {} differs from the prepared range {}", at(p), show(o), show(&pr)));
            }
        }
        if !m.splits_char(p) && !(pr.0 <= p && p < pr.1) {
            return Err(format!("at {}: prepared range {} does not contain the cursor", at(p), show(&pr)));
        }
    }
    // Agreement with the feature set at occurrences seen from every other occurrence is C05/C06.
    let _ = pos_params;
    ctx.compared(n);
    Ok(())
}

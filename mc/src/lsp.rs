//! Reading the server's answers, independent of which of the protocol's shapes it chose.
use crate::engine::{Ctx, URI};
use crate::model::{Model, Pos, Rng, Span, Text};
use crate::session::{pos_params, RpcErr};
use serde_json::{json, Value};

pub fn pos(v: &Value) -> Result<Pos, String> {
    match (v["line"].as_u64(), v["character"].as_u64()) {
        (Some(l), Some(c)) => Ok((l, c)),
        _ => Err(format!("not a position: {v}")),
    }
}
pub fn rng(v: &Value) -> Result<Rng, String> {
    Ok((pos(&v["start"])?, pos(&v["end"])?))
}
pub fn show(r: &Rng) -> String {
    format!("{}:{}-{}:{}", r.0 .0, r.0 .1, r.1 .0, r.1 .1)
}
pub fn shows(v: &[Rng]) -> String {
    v.iter().map(show).collect::<Vec<_>>().join(" ")
}
pub struct Targets {
    /// Nothing was found (null); an empty list is `found` with no locations.
    pub found: bool,
    pub origin: Vec<Rng>,
    /// (uri, range to select)
    pub locs: Vec<(String, Rng)>,
}
impl Targets {
    /// Sorted ranges, all of which must be in the document `uri`.
    pub fn within(&self, uri: &str) -> Result<Vec<Rng>, String> {
        let mut v = vec![];
        for (u, r) in &self.locs {
            if u != uri {
                return Err(format!("unexpected target document {u}"));
            }
            v.push(*r);
        }
        v.sort();
        Ok(v)
    }
}
/// null | Location | Location[] | LocationLink[]
pub fn targets(v: &Value) -> Result<Targets, String> {
    let mut t = Targets { found: !v.is_null(), origin: vec![], locs: vec![] };
    let list: Vec<&Value> = match v {
        Value::Null => vec![],
        Value::Array(a) => a.iter().collect(),
        v => vec![v],
    };
    for l in list {
        if l.get("targetUri").is_some() {
            if let Some(o) = l.get("originSelectionRange") {
                t.origin.push(rng(o)?);
            }
            let (full, sel) = (rng(&l["targetRange"])?, rng(&l["targetSelectionRange"])?);
            if !(full.0 <= sel.0 && sel.1 <= full.1) {
                return Err(format!("selection {} outside target range {}", show(&sel), show(&full)));
            }
            t.locs.push((l["targetUri"].as_str().unwrap_or("").to_string(), sel));
        } else {
            t.locs.push((l["uri"].as_str().ok_or("no uri")?.to_string(), rng(&l["range"])?));
        }
    }
    t.origin.dedup();
    Ok(t)
}

pub fn ask(ctx: &mut Ctx, method: &str, params: Value) -> Result<Result<Value, RpcErr>, String> {
    Ok(ctx.server()?.request(method, params)?)
}
pub fn ask_ok(ctx: &mut Ctx, method: &str, params: Value) -> Result<Value, String> {
    ask(ctx, method, params)?.map_err(|e| format!("{method} failed: {}", e.message))
}
pub fn goto(ctx: &mut Ctx, what: &str, p: Pos) -> Result<Targets, String> {
    let v = ask_ok(ctx, &format!("textDocument/{what}"), pos_params(URI, p.0 as usize, p.1 as usize))?;
    targets(&v).map_err(|e| format!("{what} at {}:{}: {e}", p.0, p.1))
}
pub fn references(ctx: &mut Ctx, p: Pos, decl: bool) -> Result<Targets, String> {
    let mut q = pos_params(URI, p.0 as usize, p.1 as usize);
    q["context"] = json!({ "includeDeclaration": decl });
    let v = ask_ok(ctx, "textDocument/references", q)?;
    targets(&v).map_err(|e| format!("references at {}:{}: {e}", p.0, p.1))
}
pub fn prepare(ctx: &mut Ctx, p: Pos) -> Result<Option<Rng>, String> {
    let v = match ask(ctx, "textDocument/prepareRename", pos_params(URI, p.0 as usize, p.1 as usize))? {
        Ok(v) => v,
        Err(_) => return Ok(None),
    };
    match &v {
        Value::Null => Ok(None),
        v if v.get("range").is_some() => Ok(Some(rng(&v["range"])?)),
        v => Ok(Some(rng(v)?)),
    }
}
pub type Edit = (Rng, String);
/// The text edits of a workspace edit, which must concern `uri` only.
pub fn edits(v: &Value, uri: &str) -> Result<Vec<Edit>, String> {
    let mut out = vec![];
    let mut add = |l: &Value| -> Result<(), String> {
        for e in l.as_array().ok_or("edits are not a list")? {
            out.push((rng(&e["range"])?, e["newText"].as_str().ok_or("no newText")?.to_string()));
        }
        Ok(())
    };
    if let Some(m) = v.get("changes").and_then(|c| c.as_object()) {
        for (u, l) in m {
            if u != uri {
                return Err(format!("edit of another document {u}"));
            }
            add(l)?;
        }
    }
    if let Some(a) = v.get("documentChanges").and_then(|c| c.as_array()) {
        for d in a {
            if d["textDocument"]["uri"] != uri {
                return Err(format!("edit of another document {}", d["textDocument"]["uri"]));
            }
            add(&d["edits"])?;
        }
    }
    Ok(out)
}
pub fn rename(ctx: &mut Ctx, p: Pos, name: &str) -> Result<Result<Vec<Edit>, RpcErr>, String> {
    let mut q = pos_params(URI, p.0 as usize, p.1 as usize);
    q["newName"] = json!(name);
    match ask(ctx, "textDocument/rename", q)? {
        Err(e) => Ok(Err(e)),
        Ok(Value::Null) => Ok(Err(RpcErr { code: 0, message: "null".into() })),
        Ok(v) => Ok(Ok(edits(&v, URI)?)),
    }
}
pub fn apply(t: &Text, e: &[Edit]) -> Result<String, String> {
    let mut v: Vec<(Span, &str)> = vec![];
    for (r, n) in e {
        let (a, b) = (t.off(r.0), t.off(r.1));
        match (a, b) {
            (Some(a), Some(b)) if a <= b => v.push(((a, b), n)),
            _ => return Err(format!("edit range {} is not a range of the document", show(r))),
        }
    }
    v.sort();
    let mut s = String::new();
    let mut at = 0;
    for ((a, b), n) in v {
        if a < at {
            return Err("overlapping edits".into());
        }
        s.extend(&t.c[at..a]);
        s += n;
        at = b;
    }
    s.extend(&t.c[at..]);
    Ok(s)
}
pub fn rngs(m: &Model, s: &[Span]) -> Vec<Rng> {
    let mut v: Vec<Rng> = s.iter().map(|s| m.rng(*s)).collect();
    v.sort();
    v
}
/// The text with every span replaced.
pub fn replace(t: &Text, mut spans: Vec<(Span, String)>) -> String {
    spans.sort();
    let mut s = String::new();
    let mut at = 0;
    for ((a, b), n) in spans {
        s.extend(&t.c[at..a]);
        s += &n;
        at = b;
    }
    s.extend(&t.c[at..]);
    s
}

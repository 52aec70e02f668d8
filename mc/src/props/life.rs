//! C21: the life of one server process, from the first byte to the end of the connection.
use super::doc::init_lazy;
use crate::engine::{finding, seq_at, seq_count, Ctx, Space, Verdict, URI};
use crate::session::{change_params, default_init, doc_params, open_params, Dead, Session};
use serde_json::{json, Value};

const TEXT: &str = "define void @f1(int32 %v1) {\na:\n  br a\n}\n";
const OTHER: &str = "file:///mc/other.hir";
const OPS: &[&str] =
    &["initialize", "initialize lazy", "initialized", "didOpen", "didOpen other", "didClose other", "documentSymbol", "codeAction", "graph", "reply", "unknown request", "unknown notification", "shutdown", "exit", "close"];

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    New,
    Running { lazy: bool },
    Down,
    Exited,
    Closed,
}

fn action() -> Value {
    json!({"textDocument": {"uri": URI}, "range": {"start": {"line": 0, "character": 14}, "end": {"line": 0, "character": 14}}, "context": {"diagnostics": []}})
}
fn graph() -> Value {
    json!({"command": "visualize-cfg", "arguments": [URI, "@f1"]})
}

/// The process is to have ended by itself.
fn ended(s: &mut Session, exit_seen: bool, graphs: usize, what: &str) -> Verdict {
    match s.run() {
        Err(Dead::Exited) => Ok(()),
        Err(d) => Err(format!("{d} {what}")),
        Ok(()) if graphs > 0 && !exit_seen => finding("close-with-unanswered-graph", format!("the server does not end {what}")),
        Ok(()) => Err(format!("the server does not end {what}")),
    }
}

fn sequence(ctx: &mut Ctx, ops: &[usize]) -> Verdict {
    let mut s = Session::spawn();
    let mut st = St::New;
    let (mut open, mut version, mut n) = (false, 0, 0u64);
    // Graph requests the client has not answered: (its request to the server, the server's to it).
    let mut graphs: Vec<(i64, Value)> = vec![];
    let names: Vec<&str> = ops.iter().map(|o| OPS[*o]).collect();
    for (k, name) in names.iter().enumerate() {
        if st == St::Closed || (st == St::Exited && *name != "close") {
            // Nothing may follow.
            ctx.c.outside += 1;
            return Ok(());
        }
        let here = format!("after {:?}", &names[..=k]);
        s.inbox.clear();
        let running = matches!(st, St::Running { .. });
        let refuse = |r: Result<Value, crate::session::RpcErr>| match r {
            Err(e) if !e.message.is_empty() => Ok(()),
            Err(e) => Err(format!("the refusal carries no message ({}) {here}", e.code)),
            Ok(v) => Err(format!("{name} is answered with {v} {here}")),
        };
        let accept = |r: Result<Value, crate::session::RpcErr>| r.map_err(|e| format!("{name} is refused ({} {:?}) {here}", e.code, e.message));
        let dead = |d: Dead| format!("{d} {here}");
        n += 1;
        match *name {
            "initialize" | "initialize lazy" => {
                let lazy = *name != "initialize";
                let r = s.request("initialize", if lazy { init_lazy() } else { default_init() }).map_err(dead)?;
                if st == St::New {
                    let v = accept(r)?;
                    if !v["capabilities"].is_object() {
                        return Err(format!("initialize is answered with {v} {here}"));
                    }
                    st = St::Running { lazy };
                } else {
                    refuse(r)?;
                }
            }
            "initialized" => s.notify("initialized", json!({})).map_err(dead)?,
            "unknown notification" => s.notify("mc/unknown", json!({})).map_err(dead)?,
            "didOpen" => {
                version += 1;
                s.notify("textDocument/didOpen", open_params(URI, TEXT, version)).map_err(dead)?;
                let d = s.take_diagnostics();
                if d.len() != running as usize {
                    return Err(format!("{} diagnostics notifications {here}", d.len()));
                }
                if running {
                    open = true;
                    if d[0]["uri"] != URI || d[0]["version"] != version {
                        return Err(format!("diagnostics are those of {} version {} {here}", d[0]["uri"], d[0]["version"]));
                    }
                }
            }
            "didOpen other" => {
                version += 1;
                s.notify("textDocument/didOpen", open_params(OTHER, "@x = @y\nbroken\n", version)).map_err(dead)?;
                let d = s.take_diagnostics();
                if d.len() != running as usize || d.iter().any(|d| d["uri"] != OTHER) {
                    return Err(format!("{} diagnostics notifications {here}", d.len()));
                }
            }
            "didClose other" => {
                s.notify("textDocument/didClose", doc_params(OTHER)).map_err(dead)?;
                if !running && !s.take_diagnostics().is_empty() {
                    return Err(format!("diagnostics {here}"));
                }
            }
            "documentSymbol" => {
                let r = s.request("textDocument/documentSymbol", doc_params(URI)).map_err(dead)?;
                if !running {
                    refuse(r)?;
                } else if open {
                    let v = accept(r)?;
                    if v.as_array().map_or(0, |a| a.len()) != 1 {
                        return Err(format!("the outline is {v} {here}"));
                    }
                } else if let Ok(v) = r {
                    // A document opened before `initialize` is not known.
                    if v.as_array().map_or(false, |a| !a.is_empty()) {
                        return Err(format!("a document that was not opened has the outline {v} {here}"));
                    }
                }
            }
            "codeAction" => {
                let r = s.request("textDocument/codeAction", action()).map_err(dead)?;
                match st {
                    St::Running { lazy } if open => {
                        let v = accept(r)?;
                        let has = v[0].get("edit").map_or(false, |e| !e.is_null());
                        if v.as_array().map_or(0, |a| a.len()) != 1 || has == lazy {
                            return Err(format!("the actions offered to a client that {} resolve them are {v} {here}", if lazy { "can" } else { "cannot" }));
                        }
                    }
                    St::Running { .. } => {}
                    _ => refuse(r)?,
                }
            }
            "graph" => {
                let id = s.fresh_id();
                s.feed(json!({"jsonrpc": "2.0", "id": id, "method": "workspace/executeCommand", "params": graph()}));
                s.run().map_err(dead)?;
                let q = s.take_server_requests();
                if running && open {
                    if q.len() != 1 || s.answer(id, name).is_ok() {
                        return Err(format!("{} graphs are shown {here}", q.len()));
                    }
                    graphs.push((id, q[0]["id"].clone()));
                } else {
                    if !q.is_empty() {
                        return Err(format!("a graph is shown {here}"));
                    }
                    refuse(s.answer(id, name).map_err(dead)?)?;
                }
            }
            "reply" => {
                if graphs.is_empty() {
                    ctx.c.outside += 1;
                    return Ok(());
                }
                let (id, theirs) = graphs.remove(0);
                s.reply(&theirs, json!({})).map_err(dead)?;
                // After `shutdown` too: what is under way is completed.
                accept(s.answer(id, "graph").map_err(dead)?)?;
            }
            "unknown request" => refuse(s.request("mc/unknown", json!({})).map_err(dead)?)?,
            "shutdown" => {
                let id = s.fresh_id();
                s.feed(json!({"jsonrpc": "2.0", "id": id, "method": "shutdown"}));
                s.run().map_err(dead)?;
                let r = s.answer(id, name).map_err(dead)?;
                if running {
                    let v = accept(r)?;
                    if !v.is_null() {
                        return Err(format!("shutdown is answered with {v} {here}"));
                    }
                    st = St::Down;
                } else {
                    refuse(r)?;
                }
            }
            "exit" => {
                s.feed(json!({"jsonrpc": "2.0", "method": "exit"}));
                st = St::Exited;
                match s.run() {
                    Err(Dead::Exited) => break,
                    Err(d) => return Err(dead(d)),
                    Ok(()) => finding("exit-with-input-open", format!("the server does not end {here}"))?,
                }
            }
            _ => {
                let was = st;
                st = St::Closed;
                s.close_input();
                ended(&mut s, was == St::Exited, graphs.len(), &here)?;
            }
        }
        // Whatever happens, nothing of the server's own is an answer to a request never made.
        let _ = s.decode();
        // (What is under way when the session ends may be given up, once.)
        let over = matches!(st, St::Exited | St::Closed);
        if let Some(m) = s.inbox.iter().find(|m| m.get("method").is_none() && !(over && graphs.iter().any(|g| m["id"] == g.0))) {
            return Err(format!("an answer to nothing ({m}) {here}"));
        }
    }
    ctx.compared(n);
    ctx.state(&format!("{st:?} {open} {} {names:?}", graphs.len()));
    ctx.sample(|| json!({"history": names, "state": format!("{st:?}"), "ended": s.dead == Some(Dead::Exited)}));
    ctx.adopt(s);
    Ok(())
}
pub fn sequences(max: u32) -> Space {
    let k = OPS.len() as u64;
    Space::new(
        "sequences",
        format!("every sequence of up to {max} of {OPS:?}, one at a time, against the protocol's lifecycle (nothing follows exit but close; reply: to the oldest unanswered graph)"),
        seq_count(k, 1, max),
        move |ctx, i| sequence(ctx, &seq_at(k, 1, i)),
    )
}

fn script(which: usize) -> Vec<Value> {
    let req = |id: i64, m: &str, p: Value| json!({"jsonrpc": "2.0", "id": id, "method": m, "params": p});
    let note = |m: &str, p: Value| json!({"jsonrpc": "2.0", "method": m, "params": p});
    let mut v = vec![req(1, "initialize", default_init()), note("initialized", json!({})), note("textDocument/didOpen", open_params(URI, TEXT, 1))];
    match which {
        0 => {}
        1 => {
            v.push(note("textDocument/didChange", change_params(URI, &["@é = @é\n"], 2)));
            v.push(req(2, "textDocument/documentSymbol", doc_params(URI)));
            v.push(req(3, "textDocument/semanticTokens/full", doc_params(URI)));
            v.push(note("textDocument/didClose", doc_params(URI)));
            v.push(req(4, "textDocument/documentSymbol", doc_params(URI)));
        }
        _ => {
            v.push(req(2, "workspace/executeCommand", graph()));
            v.push(req(3, "textDocument/documentSymbol", doc_params(URI)));
        }
    }
    v.push(json!({"jsonrpc": "2.0", "id": 9, "method": "shutdown"}));
    v.push(note("exit", json!({})));
    v
}
/// The client's byte stream ends after any byte.
pub fn cuts() -> Space {
    let streams: Vec<Vec<u8>> = (0..3).map(|w| script(w).iter().flat_map(Session::frame).collect()).collect();
    let n: u64 = streams.iter().map(|s| s.len() as u64 + 1).sum();
    Space::new(
        "cuts",
        "three whole sessions (plain; with edits and requests; with a graph the client never answers) that end after every byte of the client's stream, at once or once the server is idle, with the output open, closed to writing until then, or broken",
        n * 6,
        move |ctx, i| {
            let mut d = crate::engine::Dig(i);
            let (late, out) = (d.take(2) == 1, d.take(3));
            let (mut w, mut cut) = (0, d.0 as usize);
            while cut > streams[w].len() {
                cut -= streams[w].len() + 1;
                w += 1;
            }
            let here = format!("when the client's stream ends after byte {cut} of session {w} ({}, output {})", if late { "once idle" } else { "at once" }, ["open", "blocked until then", "broken"][out]);
            // What the server has received in full.
            let (mut full, mut at) = (vec![], 0);
            for m in script(w) {
                at += Session::frame(&m).len();
                if at <= cut {
                    full.push(m);
                }
            }
            let exit = full.iter().any(|m| m["method"] == "exit");
            let shows = full.iter().any(|m| m["method"] == "workspace/executeCommand");
            let mut s = Session::spawn();
            s.sent = full.clone();
            if out == 1 {
                s.set_out_credit(Some(0));
            }
            s.feed_bytes(&streams[w][..cut]);
            s.delivered += full.len() as u64;
            if late {
                match s.run() {
                    Ok(()) => {}
                    Err(Dead::Exited) if exit => return Ok(()),
                    Err(d) => return Err(format!("{d} {here}")),
                }
            }
            if out == 2 {
                s.break_output();
            }
            s.close_input();
            if out == 1 {
                let _ = s.run();
                s.set_out_credit(None);
            }
            if out == 2 {
                // Nobody is there any more; that it ends is all that can be asked for.
                match s.run() {
                    Err(Dead::Exited) | Err(Dead::Panic(_)) => {}
                    Err(d) => return Err(format!("{d} {here}")),
                    Ok(()) if shows && !exit => finding("close-with-unanswered-graph", format!("the server does not end {here}"))?,
                    Ok(()) => return Err(format!("the server does not end {here}")),
                }
                ctx.compared(1);
            } else {
                ended(&mut s, exit, shows as usize, &here)?;
                let _ = s.decode();
                let mut c = 1;
                for m in &full {
                    let Some(id) = m.get("id").and_then(|x| x.as_i64()) else { continue };
                    // An exit gives up what is under way; so may the end of the connection while the client owes an answer.
                    if exit || (shows && id > 1) {
                        continue;
                    }
                    s.answer(id, m["method"].as_str().unwrap_or("")).map_err(|e| format!("{e} {here}"))?.ok();
                    c += 1;
                }
                ctx.compared(c);
            }
            ctx.state(&format!("{i}"));
            ctx.adopt(s);
            Ok(())
        },
    )
}

const MSGS: &[&str] = &["didChange", "documentSymbol", "semanticTokens", "hover", "graph", "cancel", "shutdown"];
/// The connection ends at any point of the processing of a few messages.
pub fn endings(max: u32, polls: usize) -> Space {
    let k = MSGS.len() as u64;
    let seqs = seq_count(k, 1, max);
    Space::new(
        "endings",
        format!("every sequence of up to {max} of {MSGS:?} on an open document, delivered at once; the input ends after every number of polls of the server up to {polls}, with the output open, blocked until then, or broken"),
        seqs * polls as u64 * 3,
        move |ctx, i| {
            let mut d = crate::engine::Dig(i);
            let (p, out) = (d.take(polls), d.take(3));
            let seq = seq_at(k, 1, d.0);
            let names: Vec<&str> = seq.iter().map(|x| MSGS[*x]).collect();
            let here = format!("when the input ends {p} polls after {names:?}, output {}", ["open", "blocked until then", "broken"][out]);
            let mut s = Session::new()?;
            s.open(URI, TEXT, 1)?;
            s.inbox.clear();
            if out == 1 {
                s.set_out_credit(Some(0));
            }
            let (mut shows, mut changes, mut down, mut ids) = (0, 0, false, vec![]);
            for (j, m) in names.iter().enumerate() {
                let id = 100 + j as i64;
                let (method, params) = match *m {
                    "didChange" => {
                        changes += !down as usize;
                        ("textDocument/didChange", change_params(URI, &[TEXT], 2 + j as i64))
                    }
                    "documentSymbol" => ("textDocument/documentSymbol", doc_params(URI)),
                    "semanticTokens" => ("textDocument/semanticTokens/full", doc_params(URI)),
                    "hover" => ("textDocument/hover", crate::session::pos_params(URI, 0, 14)),
                    "graph" => {
                        shows += !down as usize;
                        ("workspace/executeCommand", graph())
                    }
                    "cancel" => ("$/cancelRequest", json!({"id": 100})),
                    _ => {
                        down = true;
                        ("shutdown", Value::Null)
                    }
                };
                let mut msg = json!({"jsonrpc": "2.0", "method": method});
                if !params.is_null() {
                    msg["params"] = params;
                }
                if !matches!(*m, "didChange" | "cancel") {
                    msg["id"] = json!(id);
                    ids.push((id, *m));
                }
                s.feed(msg);
            }
            for _ in 0..p {
                if s.woken() {
                    s.step().map_err(|d| format!("{d} {here}"))?;
                }
            }
            let busy = s.woken() || out == 1;
            if out == 2 {
                s.break_output();
            }
            s.close_input();
            if out == 1 {
                let _ = s.run();
                s.set_out_credit(None);
            }
            let r = s.run();
            match r {
                Err(Dead::Exited) => {}
                Err(Dead::Panic(_)) if out == 2 => {}
                Err(d) => return Err(format!("{d} {here}")),
                Ok(()) if shows > 0 => finding("close-with-unanswered-graph", format!("the server does not end {here}"))?,
                Ok(()) if changes > 1 && busy => finding("close-with-diagnostics-under-way", format!("the server does not end {here}"))?,
                Ok(()) => return Err(format!("the server does not end {here}")),
            }
            let _ = s.decode();
            let mut c = 1;
            if out != 2 && s.dead.is_some() && shows == 0 {
                for (id, m) in ids {
                    s.answer(id, m).map_err(|e| format!("{e} {here}"))?.ok();
                    c += 1;
                }
            }
            ctx.compared(c);
            ctx.state(&format!("{i}"));
            ctx.adopt(s);
            Ok(())
        },
    )
}

/// Shuts a session down, which then ends with its connection.
fn farewell(ctx: &mut Ctx, mut s: Session, here: &str) -> Verdict {
    s.inbox.clear();
    let id = s.fresh_id();
    s.feed(json!({"jsonrpc": "2.0", "id": id, "method": "shutdown"}));
    s.run().map_err(|d| format!("{d} {here}"))?;
    match s.answer(id, "shutdown").map_err(|d| format!("{d} {here}"))? {
        Ok(Value::Null) => {}
        Ok(v) => return Err(format!("shutdown is answered with {v} {here}")),
        Err(e) => return Err(format!("shutdown is refused ({} {:?}) {here}", e.code, e.message)),
    }
    s.feed(json!({"jsonrpc": "2.0", "method": "exit"}));
    s.close_input();
    ended(&mut s, true, 0, here)?;
    ctx.compared(2);
    ctx.adopt(s);
    Ok(())
}
pub fn farewell_doc(ctx: &mut Ctx, t: &str) -> Verdict {
    let mut s = Session::new()?;
    s.open(URI, t, 1)?;
    ctx.state(t);
    farewell(ctx, s, "with this document open")
}
pub fn farewell_addresses() -> Space {
    const U: &[&str] = super::proto::ADDRESSES;
    let n = U.len() as u64;
    Space::new("farewell-addresses", format!("shutdown and exit with every pair of {n} document addresses open, or opened and closed"), n * n * 2, move |ctx, i| {
        let mut d = crate::engine::Dig(i);
        let (u, v, close) = (*d.of(U), *d.of(U), d.take(2) == 1);
        let mut s = Session::new()?;
        s.open(u, TEXT, 1)?;
        s.open(v, "@x = @y\nbroken\n", 2)?;
        if close {
            s.notify("textDocument/didClose", doc_params(u))?;
        }
        ctx.state(&format!("{u} {v} {close}"));
        farewell(ctx, s, &format!("with {u} and {v} opened{}", if close { ", the first one closed" } else { "" }))
    })
}
pub fn farewell_many(max: u64) -> Space {
    Space::new("farewell-many", format!("shutdown and exit with every number of documents up to {max} open, every number of changes to one of them up to {max}"), max * 2, move |ctx, i| {
        let (n, how) = (i / 2, i % 2);
        let mut s = Session::new()?;
        for k in 0..n {
            if how == 0 {
                s.open(&format!("file:///mc/{k}.hir"), TEXT, 1)?;
            } else {
                s.change(URI, TEXT, k as i64)?;
            }
        }
        ctx.state(&format!("{i}"));
        farewell(ctx, s, &format!("with {n} {}", if how == 0 { "documents open" } else { "changes made" }))
    })
}

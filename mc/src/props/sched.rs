//! All schedules of small client scripts: arrival of messages, polls of the server, output
//! back-pressure, replies of the client, spawned tasks and timers.
use super::proto::normal;
use crate::engine::{seq_at, seq_count, Ctx, Space, Verdict};
use crate::session::{change_params, default_init, doc_params, open_params, pos_params, Session};
use serde_json::{json, Value};

const A: &str = "file:///mc/a.hir";
const B: &str = "file:///mc/b.hir";
const T: &[&str] = &[
    "@g1 = 1\ndefine void @f(int32 %v1) {\nb1:\n  br b1\n}\n@g2 = @g1, @u\n",
    "\n@g1 = @g1, @g1\n@g1 = 2\ndefine void @f(int32 %v1) {\nb2:\n  br b1\nb1:\n  br b2\n}\n",
    "@g1 = @q, @r, @g1\nfoo\n",
];

#[derive(Clone, Debug)]
enum Msg {
    Note(&'static str, Value),
    /// (method, params); `true`: makes the server ask the client
    Req(&'static str, Value),
    /// Cancels the latest request before it.
    Cancel,
}
/// Texts of some kilobytes up to more than the output and input buffers of the server.
fn large(bytes: usize) -> String {
    let mut t = T[1].to_string();
    let mut i = 0;
    while t.len() < bytes {
        t.push_str(&format!("@x{i} = @x{i}, @y{i} // {}\n", "-".repeat(bytes / 100)));
        i += 1;
    }
    t
}
/// Messages about large documents.
fn large_alphabet(bytes: usize) -> Vec<(&'static str, Msg)> {
    let t: &'static str = Box::leak(large(bytes).into_boxed_str());
    let change = |u: &str, t: &str| Msg::Note("textDocument/didChange", change_params(u, &[t], 0));
    let mut v = vec![("big A", change(A, t)), ("big B", change(B, t))];
    const WITH: &[&str] = &["change A 2", "outline A", "graph A", "rename A", "references A", "cancel", "hints A"];
    v.extend(alphabet().into_iter().filter(|a| WITH.contains(&a.0)));
    v
}
fn alphabet() -> Vec<(&'static str, Msg)> {
    let change = |u: &str, t: usize, v: i64| Msg::Note("textDocument/didChange", change_params(u, &[T[t]], v));
    let exec = |u: &str, f: &str| Msg::Req("workspace/executeCommand", json!({"command": "visualize-cfg", "arguments": [u, f]}));
    let mut rn = pos_params(A, 0, 1);
    rn["newName"] = json!("+1");
    let mut rf = pos_params(A, 1, 8);
    rf["context"] = json!({"includeDeclaration": true});
    vec![
        ("change A 1", change(A, 1, 0)),
        ("change A 2", change(A, 2, 0)),
        ("change B 1", change(B, 1, 0)),
        ("outline A", Msg::Req("textDocument/documentSymbol", doc_params(A))),
        ("graph A", exec(A, "@f")),
        ("graph B", exec(B, "@f")),
        ("rename A", Msg::Req("textDocument/rename", rn)),
        ("references A", Msg::Req("textDocument/references", rf)),
        ("cancel", Msg::Cancel),
        ("tokens B", Msg::Req("textDocument/semanticTokens/full", doc_params(B))),
        ("hints A", Msg::Req("textDocument/inlayHint", json!({"textDocument": {"uri": A}, "range": {"start": {"line": 0, "character": 0}, "end": {"line": 99, "character": 0}}}))),
        ("close A", Msg::Note("textDocument/didClose", doc_params(A))),
        ("graph none", exec(A, "@none")),
    ]
}

#[derive(Clone, Debug)]
struct Script {
    names: Vec<String>,
    /// Ready to send; requests have the ids 1000 + index.
    msgs: Vec<Value>,
    exec: Vec<bool>,
    cancelled: Vec<bool>,
    is_req: Vec<bool>,
}
fn script(ops: &[(&'static str, Msg)]) -> Script {
    let mut s = Script { names: vec![], msgs: vec![], exec: vec![], cancelled: vec![], is_req: vec![] };
    for (i, (n, m)) in ops.iter().enumerate() {
        s.names.push(n.to_string());
        let (mut exec, mut is_req) = (false, false);
        s.msgs.push(match m {
            Msg::Note(m, p) => {
                let mut p = p.clone();
                if *m == "textDocument/didChange" {
                    p["textDocument"]["version"] = json!(10 + i);
                }
                json!({"jsonrpc": "2.0", "method": m, "params": p})
            }
            Msg::Req(m, p) => {
                exec = *m == "workspace/executeCommand";
                is_req = true;
                json!({"jsonrpc": "2.0", "id": 1000 + i, "method": m, "params": p})
            }
            Msg::Cancel => {
                let target = (0..i).rev().find(|j| s.is_req[*j]);
                if let Some(j) = target {
                    s.cancelled[j] = true;
                }
                json!({"jsonrpc": "2.0", "method": "$/cancelRequest", "params": {"id": target.map_or(7, |j| 1000 + j)}})
            }
        });
        s.exec.push(exec);
        s.is_req.push(is_req);
        s.cancelled.push(false);
    }
    s
}

/// What the client has seen.
#[derive(Default, Clone)]
struct Seen {
    /// Per message index: answer (normalised result, or error code).
    answers: Vec<Option<Result<Value, i64>>>,
    /// Diagnostics per document in order: (version, content).
    diags: [Vec<(Value, Value)>; 2],
    /// Graph requests in order: (id, params, answered).
    graphs: Vec<(Value, Value, Option<bool>)>,
    other: Vec<Value>,
}
impl Seen {
    fn take(&mut self, s: &mut Session) -> Verdict {
        for mut m in s.inbox.drain(..) {
            if m["method"] == "textDocument/publishDiagnostics" {
                let i = if m["params"]["uri"] == A { 0 } else { 1 };
                self.diags[i].push((m["params"]["version"].clone(), normal(&m["params"]["diagnostics"])));
            } else if m.get("method").is_some() && m.get("id").is_some() {
                if self.graphs.iter().any(|g| g.0 == m["id"] && g.2.is_none()) {
                    return Err("two requests of the server with the same id".into());
                }
                self.graphs.push((m["id"].take(), normal(&m["params"]), None));
            } else if m.get("method").is_some() {
                self.other.push(m);
            } else if let Some(i) = m["id"].as_u64().filter(|i| *i >= 1000) {
                let i = i as usize - 1000;
                if i >= self.answers.len() {
                    return Err(format!("answer to an unknown request: {m}"));
                }
                if self.answers[i].is_some() {
                    return Err(format!("second answer to message {i}: {m}"));
                }
                self.answers[i] = Some(match m.get("error") {
                    Some(e) => Err(e["code"].as_i64().unwrap_or(0)),
                    None => Ok(normal(&m["result"])),
                });
            } else {
                return Err(format!("answer to an unknown request: {m}"));
            }
        }
        Ok(())
    }
}
/// The client's first messages, one at a time.
fn start(opened: bool) -> Result<Session, String> {
    let mut s = Session::spawn();
    s.request("initialize", default_init())?.map_err(|e| e.message)?;
    if opened {
        s.notify("initialized", json!({}))?;
        s.open(A, T[0], 1)?;
        s.open(B, T[0], 1)?;
        s.inbox.clear();
    }
    s.eager = false;
    Ok(s)
}
/// One message at a time, everything answered at once.
fn sequential(sc: &Script, opened: bool) -> Result<Seen, String> {
    let mut s = start(opened)?;
    s.eager = true;
    let mut seen = Seen { answers: vec![None; sc.msgs.len()], ..Default::default() };
    for m in &sc.msgs {
        s.feed(m.clone());
        s.run()?;
        seen.take(&mut s)?;
        let open: Vec<usize> = (0..seen.graphs.len()).filter(|g| seen.graphs[*g].2.is_none()).collect();
        for g in open {
            let id = seen.graphs[g].0.clone();
            seen.graphs[g].2 = Some(true);
            s.reply(&id, json!({}))?;
            seen.take(&mut s)?;
        }
    }
    Ok(seen)
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Deliver,
    Poll,
    Unblock,
    Grant,
    ReplyOk(usize),
    ReplyErr(usize),
    Task(usize),
    Timer(usize),
}
impl Act {
    /// Progress of the server itself, as opposed to an event from outside.
    fn internal(&self) -> bool {
        matches!(self, Act::Poll | Act::Task(_))
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Out {
    /// Accepts everything.
    Open,
    /// Accepts nothing until unblocked.
    Blocked,
    /// Accepts a little twice before it is unblocked.
    Trickle,
}
struct Run {
    s: Session,
    seen: Seen,
    next: usize,
    blocked: bool,
    grants: u32,
    trace: Vec<Act>,
}
impl Run {
    fn enabled(&self, sc: &Script, errs: bool) -> Vec<Act> {
        let mut v = vec![];
        if self.s.woken() {
            v.push(Act::Poll);
        }
        if self.next < sc.msgs.len() {
            v.push(Act::Deliver);
        }
        for t in self.s.ready_tasks() {
            v.push(Act::Task(t));
        }
        if self.blocked {
            v.push(Act::Unblock);
            if self.grants > 0 {
                v.push(Act::Grant);
            }
        }
        for (i, g) in self.seen.graphs.iter().enumerate() {
            if g.2.is_none() {
                v.push(Act::ReplyOk(i));
                if errs {
                    v.push(Act::ReplyErr(i));
                }
            }
        }
        for t in self.s.pending_timers() {
            v.push(Act::Timer(t));
        }
        v
    }
    fn act(&mut self, sc: &Script, a: Act) -> Verdict {
        self.trace.push(a);
        match a {
            Act::Poll => self.s.step()?,
            Act::Deliver => {
                self.s.feed(sc.msgs[self.next].clone());
                self.next += 1;
            }
            Act::Unblock => {
                self.blocked = false;
                self.s.set_out_credit(None);
            }
            Act::Grant => {
                self.grants -= 1;
                self.s.set_out_credit(Some(150));
            }
            Act::ReplyOk(i) => {
                self.seen.graphs[i].2 = Some(true);
                let id = self.seen.graphs[i].0.clone();
                self.s.feed(json!({"jsonrpc": "2.0", "id": id, "result": {}}));
            }
            Act::ReplyErr(i) => {
                self.seen.graphs[i].2 = Some(false);
                let id = self.seen.graphs[i].0.clone();
                self.s.feed(json!({"jsonrpc": "2.0", "id": id, "error": {"code": -32603, "message": "cannot show"}}));
            }
            Act::Task(t) => self.s.run_task(t),
            Act::Timer(t) => self.s.fire_timer(t),
        }
        self.seen.take(&mut self.s)
    }
}
/// Which graph request belongs to which command (in order of the commands that show one).
fn check_state(r: &Run, sc: &Script, want: &Seen, end: bool) -> Verdict {
    let outstanding = r.seen.graphs.iter().filter(|g| g.2.is_none()).count();
    // The framework handles four messages at a time: three outstanding graphs leave room.
    let must = !r.blocked && !r.s.woken() && r.s.ready_tasks().is_empty() && r.s.pending_timers().is_empty();
    if must && (end || outstanding <= 3) {
        for i in 0..r.next {
            if !sc.is_req[i] || r.seen.answers[i].is_some() {
                continue;
            }
            if sc.exec[i] && !end && outstanding > 0 {
                continue;
            }
            return Err(format!("message {i} ({}) is not answered although the server is idle{}", sc.names[i], if outstanding > 0 { " and only a graph request is outstanding" } else { "" }));
        }
        // An unanswered graph does not hold up the next one.
        let owed = (0..r.next).filter(|i| sc.exec[*i] && matches!(want.answers[*i], Some(Ok(_)))).count();
        if r.seen.graphs.len() < owed && !sc.cancelled.iter().any(|c| *c) {
            return Err(format!("only {} of {owed} graphs are shown although the server is idle", r.seen.graphs.len()));
        }
    }
    for i in 0..r.next {
        let Some(a) = &r.seen.answers[i] else { continue };
        let w = want.answers[i].as_ref().ok_or("reference lacks an answer")?;
        if sc.cancelled[i] && a.is_err() {
            continue;
        }
        if sc.exec[i] {
            // Decided by the client's reply.
            match (a, w) {
                (Err(_), Err(_)) => {}
                (Ok(x), Ok(y)) if x == y => {}
                (Err(_), Ok(_)) if r.seen.graphs.iter().any(|g| g.2 == Some(false)) => {}
                _ => return Err(format!("command {i} ({}) is answered {a:?}, one at a time {w:?}", sc.names[i])),
            }
            continue;
        }
        if a != w && !(sc.cancelled[i] && w.is_err()) {
            return Err(format!("message {i} ({}) is answered {a:?}, one at a time {w:?}", sc.names[i]));
        }
    }
    // Diagnostics: in order, possibly skipping superseded ones, and the last one at the end.
    for d in 0..2 {
        let (got, exp) = (&r.seen.diags[d], &want.diags[d]);
        let mut k = 0;
        for g in got {
            match exp[k..].iter().position(|e| e == g) {
                Some(j) => k += j + 1,
                None => return Err(format!("diagnostics of document {d} out of order or wrong: versions {:?}, one at a time {:?}", got.iter().map(|x| &x.0).collect::<Vec<_>>(), exp.iter().map(|x| &x.0).collect::<Vec<_>>())),
            }
        }
        if end && got.last() != exp.last() {
            return Err(format!("the last diagnostics of document {d} are not those of its latest text: versions {:?}", got.iter().map(|x| &x.0).collect::<Vec<_>>()));
        }
    }
    // Graphs: those of the sequential run, each shown at most once (a cancelled command may lack its graph).
    let mut exp: Vec<&Value> = want.graphs.iter().map(|g| &g.1).collect();
    for g in &r.seen.graphs {
        match exp.iter().position(|e| *e == &g.1) {
            Some(j) => {
                exp.remove(j);
            }
            None => return Err(format!("unexpected graph {}", g.1)),
        }
    }
    if end {
        if !exp.is_empty() && !sc.cancelled.iter().any(|c| *c) {
            return Err(format!("{} graphs were not shown", exp.len()));
        }
    }
    // Each command succeeds iff the client showed its graph, and not before.
    let ok_replies = r.seen.graphs.iter().filter(|g| g.2 == Some(true)).count();
    let ok_answers = (0..sc.msgs.len()).filter(|i| sc.exec[*i] && matches!(r.seen.answers[*i], Some(Ok(_)))).count();
    if ok_answers > ok_replies || (end && ok_answers < ok_replies && !sc.cancelled.iter().any(|c| *c)) {
        return Err(format!("{ok_answers} commands succeed, the client showed {ok_replies} graphs"));
    }
    Ok(())
}
/// Explores every schedule of the script.
fn explore(ctx: &mut Ctx, sc: &Script, opened: bool, out: Out, errs: bool, bound: Option<u32>) -> Verdict {
    let want = sequential(sc, opened)?;
    // Depth-first over the choices; (choice, number of alternatives) per step.
    let mut path: Vec<(usize, usize)> = vec![];
    let mut schedules = 0u64;
    loop {
        let mut r = Run { s: start(opened)?, seen: Seen { answers: vec![None; sc.msgs.len()], ..Default::default() }, next: 0, blocked: out != Out::Open, grants: if out == Out::Trickle { 2 } else { 0 }, trace: vec![] };
        if out != Out::Open {
            r.s.set_out_credit(Some(0));
        }
        let mut depth = 0;
        // Preemptions: outside events while the server could still run.
        let mut pre = 0;
        let verdict = loop {
            let mut en = r.enabled(sc, errs);
            if let Some(b) = bound {
                // Once the bound is used up, the server runs for as long as it can.
                if pre >= b && en.iter().any(Act::internal) {
                    en.retain(Act::internal);
                }
            }
            if en.is_empty() {
                break check_state(&r, sc, &want, true);
            }
            if depth == path.len() {
                path.push((0, en.len()));
            }
            let a = en[path[depth].0];
            if !a.internal() && en.iter().any(Act::internal) {
                pre += 1;
            }
            depth += 1;
            if depth > 300 {
                break Err("the server does not settle".into());
            }
            if let Err(e) = r.act(sc, a).and_then(|_| check_state(&r, sc, &want, false)) {
                break Err(e);
            }
        };
        schedules += 1;
        ctx.add_transitions(depth as u64);
        ctx.state(&format!("{:?}{:?}{:?}", sc.names, out, r.trace));
        if let Err(e) = verdict {
            let t = format!("{e}\n--- script {:?}, output {out:?}, schedule {:?}", sc.names, r.trace);
            ctx.adopt(r.s);
            return Err(t);
        }
        // Next schedule.
        while let Some((c, n)) = path.last_mut() {
            if *c + 1 < *n {
                *c += 1;
                break;
            }
            path.pop();
        }
        if path.is_empty() {
            break;
        }
    }
    ctx.compared(schedules);
    ctx.sample(|| json!({"script": sc.names, "output": format!("{out:?}"), "schedules": schedules}));
    Ok(())
}
pub fn schedules(name: &str, min: u32, max: u32, out: &'static str, errs: bool, bound: Option<u32>, pick: Option<&'static [&'static str]>) -> Space {
    over(alphabet().into_iter().filter(|a| pick.map_or(true, |p| p.contains(&a.0))).collect(), name, min, max, out, errs, bound)
}
/// The same with documents of at least so many bytes.
pub fn large_schedules(bytes: usize, min: u32, max: u32, out: &'static str, bound: Option<u32>) -> Space {
    over(large_alphabet(bytes), &format!("large-{bytes}-{out}-{max}"), min, max, out, false, bound)
}
fn over(al: Vec<(&'static str, Msg)>, name: &str, min: u32, max: u32, out: &'static str, errs: bool, bound: Option<u32>) -> Space {
    let k = al.len() as u64;
    let out = match out {
        "open" => Out::Open,
        "blocked" => Out::Blocked,
        _ => Out::Trickle,
    };
    Space::new(
        name,
        format!(
            "every script of {min} to {max} of {k} messages {:?}, output {out:?}, client replies {}: every interleaving of arrivals, polls, output and replies{}",
            al.iter().map(|a| a.0).collect::<Vec<_>>(),
            if errs { "with success or error" } else { "with success" },
            bound.map_or(String::new(), |b| format!(" with at most {b} preemptions of the running server"))
        ),
        seq_count(k, min, max),
        move |ctx, i| {
            let ops: Vec<_> = seq_at(k, min, i).into_iter().map(|j| al[j].clone()).collect();
            explore(ctx, &script(&ops), true, out, errs, bound)
        },
    )
}
/// The first messages of a client arriving while the server starts up.
pub fn startup(out: &'static str) -> Space {
    let open = |u: &str, t: usize| Msg::Note("textDocument/didOpen", open_params(u, T[t], 1));
    let al = alphabet();
    let k = al.len() as u64;
    let o = match out {
        "open" => Out::Open,
        _ => Out::Blocked,
    };
    Space::new(format!("startup-{out}"), format!("initialized, two didOpen and every one of {k} messages, output {o:?}: every interleaving"), k * 2, move |ctx, i| {
        let last = al[(i / 2) as usize].clone();
        let mut ops = vec![("initialized", Msg::Note("initialized", json!({}))), ("open A", open(A, 0)), ("open B", open(B, 1)), last];
        if i % 2 == 1 {
            ops.swap(1, 2);
        }
        explore(ctx, &script(&ops), false, o, false, None)
    })
}
/// The byte stream cut at every one or two places.
pub fn cuts(two: bool) -> Space {
    let pick = ["change A 1", "outline A", "graph A"];
    let al = alphabet();
    let ops: Vec<_> = pick.iter().map(|p| al.iter().find(|a| a.0 == *p).unwrap().clone()).collect();
    let sc = script(&ops);
    let bytes: Vec<u8> = sc.msgs.iter().flat_map(Session::frame).collect();
    let n = bytes.len() as u64;
    let size = if two { n * n } else { n };
    Space::new("byte-cuts", format!("the byte stream of {pick:?} ({n} bytes) arriving in pieces, cut at every {}", if two { "two places" } else { "place" }), size, move |ctx, i| {
        let (x, y) = ((i % n) as usize, (i / n) as usize);
        if two && y < x {
            return Ok(());
        }
        let want = sequential(&sc, true)?;
        let mut s = start(true)?;
        s.eager = true;
        let mut seen = Seen { answers: vec![None; sc.msgs.len()], ..Default::default() };
        let parts = if two { vec![&bytes[..x], &bytes[x..y], &bytes[y..]] } else { vec![&bytes[..x], &bytes[x..]] };
        for p in parts {
            s.feed_bytes(p);
            s.run()?;
        }
        seen.take(&mut s)?;
        let open: Vec<Value> = seen.graphs.iter().map(|g| g.0.clone()).collect();
        for g in seen.graphs.iter_mut() {
            g.2 = Some(true);
        }
        for id in open {
            s.reply(&id, json!({}))?;
        }
        seen.take(&mut s)?;
        ctx.state(&format!("{x} {y}"));
        ctx.add_transitions(3);
        let r = Run { s, seen, next: sc.msgs.len(), blocked: false, grants: 0, trace: vec![] };
        ctx.compared(1);
        check_state(&r, &sc, &want, true).map_err(|e| format!("cut at {x} and {y}: {e}"))
    })
}
/// Many messages in one burst, far beyond the number handled at a time.
pub fn bursts(max: u64) -> Space {
    let al = alphabet();
    let k = al.len() as u64;
    Space::new("bursts", format!("bursts of up to {max} messages (each alone and alternating with each other one) arriving at once, output open or blocked"), max * k * k * 2, move |ctx, i| {
        let n = (i % max) as usize + 1;
        let (a, b, o) = ((i / max % k) as usize, (i / max / k % k) as usize, i / max / k / k);
        let ops: Vec<_> = (0..n).map(|j| al[if j % 2 == 0 { a } else { b }].clone()).collect();
        let sc = script(&ops);
        let want = sequential(&sc, true)?;
        let mut r = Run { s: start(true)?, seen: Seen { answers: vec![None; n], ..Default::default() }, next: 0, blocked: o == 1, grants: 0, trace: vec![] };
        if r.blocked {
            r.s.set_out_credit(Some(0));
        }
        for _ in 0..n {
            r.act(&sc, Act::Deliver)?;
        }
        let mut steps = 0;
        loop {
            let en = r.enabled(&sc, false);
            let Some(a) = en.first() else { break };
            r.act(&sc, *a)?;
            check_state(&r, &sc, &want, false).map_err(|e| format!("{e}\n--- {n} x {:?}", (&sc.names[0], sc.names.get(1))))?;
            steps += 1;
            if steps > 20_000 {
                return Err("the server does not settle".into());
            }
        }
        ctx.add_transitions(steps);
        ctx.state(&i.to_string());
        ctx.compared(1);
        check_state(&r, &sc, &want, true).map_err(|e| format!("{e}\n--- {n} x {:?}", (&sc.names[0], sc.names.get(1))))
    })
}
/// One command after the other on one server, with every alternation of two outcomes.
pub fn rounds(max: u64) -> Space {
    const HOW: &[&str] = &["shown", "refused", "answered without an object", "cancelled, then shown", "cancelled, then refused", "never shown: unknown function", "never shown: unknown command"];
    let k = HOW.len() as u64;
    Space::new("rounds", format!("{max} graph commands one after the other, with every alternation of two of the outcomes {HOW:?}; the server serves both documents after each"), k * k, move |ctx, i| {
        let pair = [HOW[(i % k) as usize], HOW[(i / k) as usize]];
        let mut s = start(true)?;
        s.eager = true;
        let outline = |s: &mut Session| s.request("textDocument/documentSymbol", doc_params(B));
        let want = normal(&outline(&mut s)?.map_err(|e| e.message)?);
        for n in 0..max {
            let how = pair[(n % 2) as usize];
            let context = format!("round {n}, commands in turn {pair:?}");
            let id = s.fresh_id();
            let (c, f) = match how {
                "never shown: unknown function" => ("visualize-cfg", "@none"),
                "never shown: unknown command" => ("visualize", "@f"),
                _ => ("visualize-cfg", "@f"),
            };
            s.feed(json!({"jsonrpc": "2.0", "id": id, "method": "workspace/executeCommand", "params": {"command": c, "arguments": [A, f]}}));
            s.run()?;
            let asked = s.take_server_requests();
            if asked.len() != !how.starts_with("never") as usize {
                return Err(format!("{} graphs are shown in {context}", asked.len()));
            }
            if how.starts_with("cancelled") {
                s.notify("$/cancelRequest", json!({"id": id}))?;
            }
            if let Some(r) = asked.first() {
                match how {
                    "shown" | "cancelled, then shown" => s.reply(&r["id"], json!({}))?,
                    "answered without an object" => s.reply(&r["id"], json!(null))?,
                    _ => {
                        s.feed(json!({"jsonrpc": "2.0", "id": r["id"], "error": {"code": -32000, "message": "no"}}));
                        s.run()?;
                    }
                }
            }
            let a = s.answer(id, &format!("the command of {context}"))?;
            match how {
                "shown" if a.is_err() => return Err(format!("a command whose graph was shown fails in {context}")),
                "refused" if a.is_ok() => return Err(format!("a command whose graph was refused succeeds in {context}")),
                h if h.starts_with("never") && a.is_ok() => return Err(format!("a command for nothing succeeds in {context}")),
                _ => {}
            }
            if outline(&mut s)?.map(|v| normal(&v)).ok().as_ref() != Some(&want) {
                return Err(format!("another document's outline is different after {context}"));
            }
        }
        // Edits and both documents still work.
        s.change(A, T[1], 7)?;
        if s.take_diagnostics().iter().filter(|d| d["uri"] == A && d["version"] == 7).count() != 1 {
            return Err(format!("no diagnostics for a change after {max} commands in turn {pair:?}"));
        }
        ctx.state(&format!("{pair:?}"));
        ctx.compared(max);
        Ok(())
    })
}

//! One in-process instance of the real server (its real `main`, real `tower_lsp::Server`),
//! with the harness on the other end of stdin/stdout and in charge of the executor.
use serde_json::{json, Value};
use std::collections::VecDeque;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;
use std::task::{Context, Waker};
use tokio::ctl::{self, Flag, LocalFuture, WorldRef};

/// The server is gone or unusable.
#[derive(Clone, Debug, PartialEq)]
pub enum Dead {
    /// A handler panicked: in the real process this takes the whole server down.
    Panic(String),
    /// The top-level future returned (server exited).
    Exited,
    /// Polling never settles.
    Livelock,
    /// The server wrote something that is not a framed JSON-RPC message.
    BadOutput(String),
    /// Quiescent, but no answer to this request id (method).
    NoAnswer(String),
    /// More than one answer to the same request.
    DuplicateAnswer(String),
}
impl std::fmt::Display for Dead {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Dead::Panic(m) => write!(f, "server crashed: {m}"),
            Dead::Exited => write!(f, "server exited"),
            Dead::Livelock => write!(f, "server never becomes idle"),
            Dead::BadOutput(m) => write!(f, "malformed output: {m}"),
            Dead::NoAnswer(m) => write!(f, "no answer to {m}"),
            Dead::DuplicateAnswer(m) => write!(f, "more than one answer to {m}"),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct RpcErr {
    pub code: i64,
    pub message: String,
}
pub type Answer = Result<Value, RpcErr>;

pub struct Session {
    world: WorldRef,
    main: Option<LocalFuture>,
    flag: Arc<Flag>,
    next_id: i64,
    /// Decoded, not yet consumed server messages, in output order.
    pub inbox: VecDeque<Value>,
    outbuf: Vec<u8>,
    pub dead: Option<Dead>,
    /// Run spawned tasks and timers as soon as they are ready (otherwise: the explorer decides).
    pub eager: bool,
    /// Everything sent so far, for replay files.
    pub sent: Vec<Value>,
    pub record: bool,
    /// Messages fed so far.
    pub delivered: u64,
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    pub static IN_SERVER: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Panics of the server code are recorded (not printed); panics of the harness are printed.
pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_SERVER.with(|b| b.get()) {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {loc}: {msg}"));
        } else {
            default(info)
        }
    }));
}

pub fn default_init() -> Value {
    json!({"processId": null, "rootUri": null, "capabilities": {}})
}

impl Session {
    /// A started process, before `initialize`.
    pub fn spawn() -> Session {
        let world = WorldRef::default();
        ctl::with_world(&world, server_under_test::__mc_start);
        let main = world.lock().main.take();
        let flag = Arc::new(Flag::default());
        flag.0.store(true, SeqCst);
        Session {
            world,
            main,
            flag,
            next_id: 1,
            inbox: VecDeque::new(),
            outbuf: Vec::new(),
            dead: None,
            eager: true,
            sent: Vec::new(),
            record: true,
            delivered: 0,
        }
    }
    pub fn with_init(init: Value) -> Result<(Session, Value), Dead> {
        let mut s = Session::spawn();
        let r = s.request("initialize", init)?;
        s.notify("initialized", json!({}))?;
        match r {
            Ok(v) => Ok((s, v)),
            Err(e) => Err(Dead::NoAnswer(format!("initialize failed: {e:?}"))),
        }
    }
    pub fn new() -> Result<Session, Dead> {
        let mut s = Self::with_init(default_init())?.0;
        s.inbox.clear();
        Ok(s)
    }

    // ---- low level: bytes, polling ----
    pub fn feed_bytes(&mut self, b: &[u8]) {
        let mut w = self.world.lock();
        w.input.extend(b);
        if let Some(k) = w.read_waker.take() {
            k.wake()
        }
    }
    /// The client closes its end of the server's input.
    pub fn close_input(&mut self) {
        let mut w = self.world.lock();
        w.input_eof = true;
        if let Some(k) = w.read_waker.take() {
            k.wake()
        }
    }
    /// The client is gone: whatever the server writes fails.
    pub fn break_output(&mut self) {
        let mut w = self.world.lock();
        w.out_broken = true;
        if let Some(k) = w.write_waker.take() {
            k.wake()
        }
    }
    pub fn frame(msg: &Value) -> Vec<u8> {
        let body = msg.to_string();
        let mut v = format!("Content-Length: {}\r\n\r\n", body.len()).into_bytes();
        v.extend_from_slice(body.as_bytes());
        v
    }
    pub fn feed(&mut self, msg: Value) {
        let b = Self::frame(&msg);
        self.delivered += 1;
        if self.record {
            self.sent.push(msg);
        }
        self.feed_bytes(&b);
    }
    pub fn set_out_credit(&mut self, c: Option<usize>) {
        let mut w = self.world.lock();
        w.out_credit = c;
        if let Some(k) = w.write_waker.take() {
            k.wake()
        }
    }
    pub fn write_blocked(&self) -> bool {
        self.world.lock().write_blocked
    }
    pub fn out_len(&self) -> usize {
        self.world.lock().output.len()
    }

    fn poll_main(&mut self) {
        let Some(mut fut) = self.main.take() else {
            return;
        };
        let waker: Waker = self.flag.clone().into();
        let mut cx = Context::from_waker(&waker);
        crate::engine::heartbeat();
        let world = self.world.clone();
        IN_SERVER.with(|b| b.set(true));
        let r = catch_unwind(AssertUnwindSafe(|| ctl::with_world(&world, || fut.as_mut().poll(&mut cx))));
        IN_SERVER.with(|b| b.set(false));
        match r {
            Ok(std::task::Poll::Pending) => self.main = Some(fut),
            Ok(std::task::Poll::Ready(())) => self.dead = Some(Dead::Exited),
            Err(_) => {
                let m = LAST_PANIC.with(|p| p.borrow().clone());
                // Unwound futures may be poisoned; never touch them again.
                std::mem::forget(fut);
                self.dead = Some(Dead::Panic(m));
            }
        }
    }
    /// Ids of spawned tasks that could make progress.
    pub fn ready_tasks(&self) -> Vec<usize> {
        let w = self.world.lock();
        w.tasks
            .iter()
            .enumerate()
            .filter(|(_, t)| t.fut.is_some() && t.flag.0.load(SeqCst))
            .map(|(i, _)| i)
            .collect()
    }
    pub fn run_task(&mut self, i: usize) {
        let (fut, flag) = {
            let mut w = self.world.lock();
            let t = &mut w.tasks[i];
            t.flag.0.store(false, SeqCst);
            (t.fut.take(), t.flag.clone())
        };
        let Some(mut fut) = fut else { return };
        let waker: Waker = flag.into();
        let mut cx = Context::from_waker(&waker);
        let world = self.world.clone();
        crate::engine::heartbeat();
        IN_SERVER.with(|b| b.set(true));
        let r = catch_unwind(AssertUnwindSafe(|| ctl::with_world(&world, || fut.as_mut().poll(&mut cx))));
        IN_SERVER.with(|b| b.set(false));
        match r {
            Ok(std::task::Poll::Pending) => self.world.lock().tasks[i].fut = Some(fut),
            Ok(std::task::Poll::Ready(())) => {}
            // A panicking spawned task does not take the process down; whoever waits for it
            // sees the failure.
            Err(_) => std::mem::forget(fut),
        }
    }
    pub fn pending_timers(&self) -> Vec<usize> {
        let w = self.world.lock();
        let mut v: Vec<_> = w
            .timers
            .iter()
            .enumerate()
            .filter(|(_, t)| !t.done && !t.fired.load(SeqCst))
            .map(|(i, t)| (t.after, i))
            .collect();
        v.sort();
        v.into_iter().map(|x| x.1).collect()
    }
    pub fn fire_timer(&mut self, i: usize) {
        let mut w = self.world.lock();
        w.timers[i].fired.store(true, SeqCst);
        if let Some(k) = w.timers[i].waker.take() {
            k.wake()
        }
    }
    /// The main task could make progress.
    pub fn woken(&self) -> bool {
        self.main.is_some() && self.flag.0.load(SeqCst)
    }
    /// A single poll of the main task.
    pub fn step(&mut self) -> Result<(), Dead> {
        self.flag.0.store(false, SeqCst);
        self.poll_main();
        if let Some(d) = &self.dead {
            return Err(d.clone());
        }
        self.decode()
    }
    /// Polls the main task until it is idle. Does not touch spawned tasks or timers.
    pub fn run_main(&mut self) -> Result<(), Dead> {
        for _ in 0..10_000 {
            if let Some(d) = &self.dead {
                return Err(d.clone());
            }
            if !self.flag.0.swap(false, SeqCst) {
                return self.decode();
            }
            self.poll_main();
        }
        self.dead = Some(Dead::Livelock);
        Err(Dead::Livelock)
    }
    /// Runs to quiescence.
    pub fn run(&mut self) -> Result<(), Dead> {
        self.run_main()?;
        if self.eager {
            for _ in 0..10_000 {
                let t = self.ready_tasks();
                if let Some(&i) = t.first() {
                    self.run_task(i);
                } else if let Some(&i) = self.pending_timers().first() {
                    self.fire_timer(i);
                } else {
                    return Ok(());
                }
                self.run_main()?;
            }
            self.dead = Some(Dead::Livelock);
            return Err(Dead::Livelock);
        }
        Ok(())
    }
    pub fn decode(&mut self) -> Result<(), Dead> {
        {
            let mut w = self.world.lock();
            if w.output.is_empty() {
                return Ok(());
            }
            if self.outbuf.is_empty() {
                self.outbuf = std::mem::take(&mut w.output);
            } else {
                let out = std::mem::take(&mut w.output);
                self.outbuf.extend_from_slice(&out);
            }
        }
        let mut pos = 0;
        loop {
            let rest = &self.outbuf[pos..];
            let Some(h) = rest.windows(4).position(|w| w == b"\r\n\r\n") else { break };
            let head = String::from_utf8_lossy(&rest[..h]).to_string();
            let len = head
                .split("\r\n")
                .find_map(|l| l.strip_prefix("Content-Length:"))
                .and_then(|n| n.trim().parse::<usize>().ok());
            let Some(len) = len else {
                let d = Dead::BadOutput(head);
                self.dead = Some(d.clone());
                return Err(d);
            };
            if rest.len() < h + 4 + len {
                break;
            }
            match serde_json::from_slice::<Value>(&rest[h + 4..h + 4 + len]) {
                Ok(v) => self.inbox.push_back(v),
                Err(e) => {
                    let d = Dead::BadOutput(e.to_string());
                    self.dead = Some(d.clone());
                    return Err(d);
                }
            }
            pos += h + 4 + len;
        }
        self.outbuf.drain(..pos);
        Ok(())
    }

    // ---- convenience: sequential client ----
    pub fn fresh_id(&mut self) -> i64 {
        self.next_id += 1;
        self.next_id - 1
    }
    pub fn notify(&mut self, method: &str, params: Value) -> Result<(), Dead> {
        self.feed(json!({"jsonrpc": "2.0", "method": method, "params": params}));
        self.run()
    }
    pub fn request(&mut self, method: &str, params: Value) -> Result<Answer, Dead> {
        let id = self.fresh_id();
        self.feed(json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}));
        self.run()?;
        self.answer(id, method)
    }
    /// Takes the (one) answer to `id` out of the inbox.
    pub fn answer(&mut self, id: i64, what: &str) -> Result<Answer, Dead> {
        let mut found = None;
        let mut i = 0;
        while i < self.inbox.len() {
            let m = &self.inbox[i];
            if m.get("method").is_none() && m.get("id") == Some(&json!(id)) {
                if found.is_some() {
                    return Err(Dead::DuplicateAnswer(what.to_string()));
                }
                found = self.inbox.remove(i);
            } else {
                i += 1;
            }
        }
        let Some(mut m) = found else {
            return Err(Dead::NoAnswer(what.to_string()));
        };
        if let Some(e) = m.get("error") {
            return Ok(Err(RpcErr {
                code: e["code"].as_i64().unwrap_or(0),
                message: e["message"].as_str().unwrap_or("").to_string(),
            }));
        }
        Ok(Ok(m["result"].take()))
    }
    pub fn open(&mut self, uri: &str, text: &str, version: i64) -> Result<(), Dead> {
        self.notify("textDocument/didOpen", open_params(uri, text, version))
    }
    pub fn change(&mut self, uri: &str, text: &str, version: i64) -> Result<(), Dead> {
        self.notify("textDocument/didChange", change_params(uri, &[text], version))
    }
    /// Takes all publishDiagnostics received so far: (uri, version, diagnostics).
    pub fn take_diagnostics(&mut self) -> Vec<Value> {
        let mut v = Vec::new();
        self.inbox.retain(|m| {
            if m["method"] == "textDocument/publishDiagnostics" {
                v.push(m["params"].clone());
                false
            } else {
                true
            }
        });
        v
    }
    /// Takes all server-to-client requests received so far.
    pub fn take_server_requests(&mut self) -> Vec<Value> {
        let mut v = Vec::new();
        self.inbox.retain(|m| {
            if m.get("method").is_some() && m.get("id").is_some() {
                v.push(m.clone());
                false
            } else {
                true
            }
        });
        v
    }
    pub fn reply(&mut self, id: &Value, result: Value) -> Result<(), Dead> {
        self.feed(json!({"jsonrpc": "2.0", "id": id, "result": result}));
        self.run()
    }
}

pub fn open_params(uri: &str, text: &str, version: i64) -> Value {
    json!({"textDocument": {"uri": uri, "languageId": "hir", "version": version, "text": text}})
}
pub fn change_params(uri: &str, texts: &[&str], version: i64) -> Value {
    let c: Vec<Value> = texts.iter().map(|t| json!({ "text": t })).collect();
    json!({"textDocument": {"uri": uri, "version": version}, "contentChanges": c})
}
pub fn doc_params(uri: &str) -> Value {
    json!({"textDocument": {"uri": uri}})
}
pub fn pos_params(uri: &str, line: usize, col: usize) -> Value {
    json!({"textDocument": {"uri": uri}, "position": {"line": line, "character": col}})
}

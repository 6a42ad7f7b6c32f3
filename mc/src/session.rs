//! An in-process editor session with the real language server.
//!
//! The server under check (`jinja_lsp::backend::Backend` behind tower-lsp's real JSON-RPC
//! transport) runs on a current-thread tokio runtime whose clock is virtual: timers fire only
//! when every task is idle, so a session is deterministic. The client side speaks framed
//! JSON-RPC over an in-memory pipe.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt, DuplexStream};
use tokio::runtime::Runtime;
use tower_lsp::{LspService, Server};

thread_local! {
    static PANICS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

/// Records every panic of the process instead of printing it.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        if std::env::var("MC_SHOW_PANICS").is_ok() {
            eprintln!("panic: {msg} at {loc}");
        }
        let _ = PANICS.try_with(|p| p.borrow_mut().push(format!("{msg} at {loc}")));
    }));
}

pub fn take_panics() -> Vec<String> {
    PANICS.with(|p| std::mem::take(&mut *p.borrow_mut()))
}

/// Client end of the transport.
pub struct Io {
    to_server: DuplexStream,
    from_server: DuplexStream,
    buf: Vec<u8>,
}

pub const WEDGE_MS: u64 = 60_000;

impl Io {
    pub async fn send(&mut self, m: &Value) -> bool {
        let b = m.to_string();
        let frame = format!("Content-Length: {}\r\n\r\n{}", b.len(), b);
        self.to_server.write_all(frame.as_bytes()).await.is_ok()
    }

    pub async fn send_raw(&mut self, b: &[u8]) -> bool {
        self.to_server.write_all(b).await.is_ok()
    }

    fn frame(&mut self) -> Option<Value> {
        let pos = self.buf.windows(4).position(|w| w == b"\r\n\r\n")?;
        let head = std::str::from_utf8(&self.buf[..pos]).ok()?;
        let n: usize = head
            .lines()
            .find_map(|l| l.strip_prefix("Content-Length: "))
            .and_then(|v| v.trim().parse().ok())?;
        if self.buf.len() < pos + 4 + n {
            return None;
        }
        let v = serde_json::from_slice(&self.buf[pos + 4..pos + 4 + n]).ok();
        self.buf.drain(..pos + 4 + n);
        v
    }

    /// The next message from the server, or None when the pipe is closed.
    pub async fn recv(&mut self) -> Option<Value> {
        loop {
            if let Some(v) = self.frame() {
                return Some(v);
            }
            let mut tmp = [0u8; 65536];
            match self.from_server.read(&mut tmp).await {
                Ok(0) | Err(_) => return None,
                Ok(n) => self.buf.extend_from_slice(&tmp[..n]),
            }
        }
    }
}

pub fn runtime() -> Runtime {
    tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .unwrap()
}

/// Starts the server on `rt`; `pipe` is the capacity of the server-to-client pipe.
pub fn start(rt: &Runtime, pipe: usize) -> Io {
    let _g = rt.enter();
    let (to_server, server_in) = tokio::io::duplex(1 << 22);
    let (server_out, from_server) = tokio::io::duplex(pipe);
    let (service, socket) = LspService::build(jinja_lsp::backend::Backend::_new).finish();
    rt.spawn(async move {
        Server::new(server_in, server_out, socket)
            .serve(service)
            .await;
    });
    Io {
        to_server,
        from_server,
        buf: vec![],
    }
}

#[derive(Clone, Default, Debug)]
pub struct Inbox {
    /// Last published diagnostics of each URI.
    pub diags: BTreeMap<String, Vec<Value>>,
    /// Every publication, in order.
    pub published: Vec<(String, Vec<Value>)>,
    pub logs: Vec<Value>,
    pub responses: BTreeMap<i64, Vec<Value>>,
    pub other: Vec<Value>,
}

impl Inbox {
    pub fn take(&mut self, m: Value) {
        match m.get("method").and_then(|x| x.as_str()) {
            Some("textDocument/publishDiagnostics") => {
                let uri = m["params"]["uri"].as_str().unwrap_or("").to_string();
                let d = m["params"]["diagnostics"].as_array().cloned().unwrap_or_default();
                self.diags.insert(uri.clone(), d.clone());
                self.published.push((uri, d));
            }
            Some("window/logMessage") => self.logs.push(m["params"].clone()),
            Some(_) => self.other.push(m),
            None => {
                let id = m.get("id").and_then(|x| x.as_i64()).unwrap_or(-1);
                self.responses.entry(id).or_default().push(m);
            }
        }
    }
}

pub struct Session {
    pub io: Io,
    pub inbox: Inbox,
    pub next_id: i64,
    pub wedged: bool,
    pub sent: u64,
    rt: Option<Runtime>,
}

impl Drop for Session {
    fn drop(&mut self) {
        if let Some(rt) = self.rt.take() {
            rt.shutdown_background();
        }
    }
}

pub struct Opts<'a> {
    pub options: Value,
    pub client: Option<&'a str>,
    pub initialized: bool,
}

impl Session {
    pub fn raw() -> Session {
        Session::piped(1 << 22)
    }

    /// A server whose pipe to the client holds `pipe` bytes.
    pub fn piped(pipe: usize) -> Session {
        let rt = runtime();
        let io = start(&rt, pipe);
        Session {
            io,
            inbox: Inbox::default(),
            next_id: 0,
            wedged: false,
            sent: 0,
            rt: Some(rt),
        }
    }

    pub fn new(o: Opts) -> Session {
        let mut s = Session::raw();
        let mut p = json!({"capabilities": {}});
        if !o.options.is_null() {
            p["initializationOptions"] = o.options;
        }
        if let Some(c) = o.client {
            p["clientInfo"] = json!({"name": c});
        }
        s.request("initialize", p);
        if o.initialized {
            s.notify("initialized", json!({}));
            s.settle(10);
        }
        s
    }

    pub fn notify(&mut self, method: &str, params: Value) {
        self.sent += 1;
        let m = json!({"jsonrpc": "2.0", "method": method, "params": params});
        let io = &mut self.io;
        self.rt.as_ref().unwrap().block_on(io.send(&m));
    }

    /// Sends a request and waits for its answer; None (and `wedged`) when there is none.
    pub fn request_full(&mut self, method: &str, params: Value) -> Option<Value> {
        self.sent += 1;
        self.next_id += 1;
        let id = self.next_id;
        let mut m = json!({"jsonrpc": "2.0", "id": id, "method": method});
        if !params.is_null() {
            m["params"] = params;
        }
        let io = &mut self.io;
        let inbox = &mut self.inbox;
        let res = self.rt.as_ref().unwrap().block_on(async {
            io.send(&m).await;
            tokio::time::timeout(Duration::from_millis(WEDGE_MS), async {
                loop {
                    match io.recv().await {
                        None => return false,
                        Some(v) => inbox.take(v),
                    }
                    if inbox.responses.contains_key(&id) {
                        return true;
                    }
                }
            })
            .await
            .unwrap_or(false)
        });
        if !res {
            self.wedged = true;
            return None;
        }
        self.inbox.responses.get(&id).and_then(|v| v.first()).cloned()
    }

    pub fn request(&mut self, method: &str, params: Value) -> Value {
        match self.request_full(method, params) {
            None => json!("<no answer>"),
            Some(v) => match v.get("result") {
                Some(r) => r.clone(),
                None => json!({"<error>": v["error"]["code"].clone()}),
            },
        }
    }

    /// Lets `ms` of virtual time pass and collects what the server said meanwhile.
    pub fn settle(&mut self, ms: u64) {
        let io = &mut self.io;
        let inbox = &mut self.inbox;
        self.rt.as_ref().unwrap().block_on(async {
            let end = tokio::time::sleep(Duration::from_millis(ms));
            tokio::pin!(end);
            loop {
                tokio::select! {
                    biased;
                    m = io.recv() => match m { Some(m) => inbox.take(m), None => break },
                    _ = &mut end => break,
                }
            }
        });
    }

    /// Writes all messages at once, reads nothing for `slow` ms, then reads until every request
    /// has its answer. Returns the ids of the requests.
    pub fn burst(&mut self, msgs: &[(&str, Value, bool)], slow: u64) -> Vec<i64> {
        let mut ids = vec![];
        let mut frames = vec![];
        for (method, params, request) in msgs {
            self.sent += 1;
            let mut m = json!({"jsonrpc": "2.0", "method": method, "params": params});
            if *request {
                self.next_id += 1;
                m["id"] = json!(self.next_id);
                ids.push(self.next_id);
            }
            let b = m.to_string();
            frames.extend(format!("Content-Length: {}\r\n\r\n{}", b.len(), b).into_bytes());
        }
        let io = &mut self.io;
        let inbox = &mut self.inbox;
        let wait = ids.clone();
        let ok = self.rt.as_ref().unwrap().block_on(async {
            io.send_raw(&frames).await;
            if slow > 0 {
                tokio::time::sleep(Duration::from_millis(slow)).await;
            }
            tokio::time::timeout(Duration::from_millis(WEDGE_MS), async {
                while !wait.iter().all(|id| inbox.responses.contains_key(id)) {
                    match io.recv().await {
                        None => return false,
                        Some(v) => inbox.take(v),
                    }
                }
                true
            })
            .await
            .unwrap_or(false)
        });
        if !ok {
            self.wedged = true;
        }
        ids
    }

    /// The next publication; reads no further than that.
    pub fn see(&mut self, from: &mut usize) -> Option<(String, Vec<Value>)> {
        let io = &mut self.io;
        let inbox = &mut self.inbox;
        let k = *from;
        *from += 1;
        self.rt.as_ref().unwrap().block_on(async {
            tokio::time::timeout(Duration::from_millis(WEDGE_MS), async {
                while inbox.published.len() <= k {
                    inbox.take(io.recv().await?);
                }
                Some(inbox.published[k].clone())
            })
            .await
            .ok()?
        })
    }

    // ---- LSP conveniences -------------------------------------------------------------
    pub fn open(&mut self, uri: &str, text: &str) {
        self.notify(
            "textDocument/didOpen",
            json!({"textDocument": {"uri": uri, "languageId": "jinja", "version": 1, "text": text}}),
        );
    }
    pub fn change(&mut self, uri: &str, changes: Value) {
        self.notify(
            "textDocument/didChange",
            json!({"textDocument": {"uri": uri, "version": 2}, "contentChanges": changes}),
        );
    }
    pub fn save(&mut self, uri: &str) {
        self.notify("textDocument/didSave", json!({"textDocument": {"uri": uri}}));
    }
    pub fn close(&mut self, uri: &str) {
        self.notify("textDocument/didClose", json!({"textDocument": {"uri": uri}}));
    }
    pub fn symbols(&mut self, uri: &str) -> Value {
        self.request("textDocument/documentSymbol", json!({"textDocument": {"uri": uri}}))
    }
    pub fn at(uri: &str, l: usize, c: usize) -> Value {
        json!({"textDocument": {"uri": uri}, "position": {"line": l, "character": c}})
    }
    pub fn hover(&mut self, uri: &str, l: usize, c: usize) -> Value {
        self.request("textDocument/hover", Self::at(uri, l, c))
    }
    pub fn goto(&mut self, uri: &str, l: usize, c: usize) -> Value {
        self.request("textDocument/definition", Self::at(uri, l, c))
    }
    pub fn complete(&mut self, uri: &str, l: usize, c: usize) -> Value {
        let mut p = Self::at(uri, l, c);
        p["context"] = json!({"triggerKind": 1});
        self.request("textDocument/completion", p)
    }
    pub fn action(&mut self, uri: &str, l: usize, c: usize) -> Value {
        let pos = json!({"line": l, "character": c});
        self.request(
            "textDocument/codeAction",
            json!({"textDocument": {"uri": uri}, "range": {"start": pos, "end": pos},
                   "context": {"diagnostics": []}}),
        )
    }
    pub fn command(&mut self, name: &str) -> Value {
        self.request(
            "workspace/executeCommand",
            json!({"command": name, "arguments": []}),
        )
    }
}

//! In-memory network: implementations of the library's own `HttpServer` and
//! `HttpClient` traits. Every exchange is recorded; replies can be scripted,
//! altered, dropped or delayed. The middlewares under test run unmodified.

use std::collections::HashMap;
use std::future::Future;
use std::net::{SocketAddr, ToSocketAddrs};
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

use hyperborealib::http::client::Response as HttpResponse;
use hyperborealib::prelude::*;
use serde_json::{json, Value as Json};

pub type BoxError = Box<dyn std::error::Error + Send + Sync>;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Reply {
    /// status and body text
    Text(u16, String),
    /// the connection fails
    Fail,
}

impl Reply {
    pub fn json(value: &Json) -> Self {
        Self::Text(200, value.to_string())
    }

    pub fn value(&self) -> Option<Json> {
        match self {
            Self::Text(_, text) => serde_json::from_str(text).ok(),
            Self::Fail => None,
        }
    }
}

type Handler = Arc<dyn Fn(SocketAddr, Option<Vec<u8>>) -> Pin<Box<dyn Future<Output = Reply> + Send>> + Send + Sync>;

#[derive(Default, Clone)]
pub struct MemServer {
    routes: HashMap<(&'static str, String), Handler>,
}

impl std::fmt::Debug for MemServer {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("MemServer")
    }
}

impl MemServer {
    pub async fn handle(&self, method: &str, path: &str, from: SocketAddr, body: Option<Vec<u8>>) -> Reply {
        let method = if method == "GET" { "GET" } else { "POST" };
        match self.routes.get(&(method, path.to_string())) {
            Some(handler) => handler(from, body).await,
            None => {
                let other = if method == "GET" { "POST" } else { "GET" };
                let known = self.routes.contains_key(&(other, path.to_string()));
                Reply::Text(if known { 405 } else { 404 }, String::new())
            }
        }
    }
}

fn reply_of<T: AsJson>(response: T) -> Reply {
    match response.to_json() {
        Ok(json) => Reply::Text(200, json.to_string()),
        Err(err) => Reply::Text(500, format!("Failed to serialize response as JSON: {err}")),
    }
}

#[async_trait::async_trait]
impl HttpServer for MemServer {
    async fn get<T: AsJson, F: Future<Output = T> + Send>(
        &mut self,
        path: impl AsRef<str> + Send,
        callback: impl FnOnce(SocketAddr) -> F + Clone + Send + Sync + 'static,
    ) {
        self.routes.insert(("GET", path.as_ref().to_string()), Arc::new(move |from, _| {
            let callback = callback.clone();
            Box::pin(async move { reply_of(callback(from).await) })
        }));
    }

    async fn post<T: AsJson, F: AsJson, R: Future<Output = F> + Send>(
        &mut self,
        path: impl AsRef<str> + Send,
        callback: impl FnOnce(SocketAddr, T) -> R + Clone + Send + Sync + 'static,
    ) {
        self.routes.insert(("POST", path.as_ref().to_string()), Arc::new(move |from, body: Option<Vec<u8>>| {
            let callback = callback.clone();
            Box::pin(async move {
                let json = match serde_json::from_slice::<Json>(&body.unwrap_or_default()) {
                    Ok(json) => json,
                    Err(err) => return Reply::Text(500, format!("Failed to deserialize request JSON: {err}")),
                };
                let future = {
                    let request = match T::from_json(&json) {
                        Ok(request) => request,
                        Err(err) => return Reply::Text(500, format!("Failed to deserialize API request from JSON object: {err}")),
                    };
                    callback(from, request)
                };
                reply_of(future.await)
            })
        }));
    }

    async fn serve(self, _address: impl ToSocketAddrs + Send) -> Result<(), Box<dyn std::error::Error>> {
        Ok(())
    }
}

#[derive(Debug, Clone)]
pub struct Exchange {
    pub from: SocketAddr,
    pub method: &'static str,
    pub url: String,
    pub host: String,
    pub path: String,
    pub request: Option<Json>,
    pub reply: Reply,
}

impl Exchange {
    pub fn brief(&self) -> Json {
        json!({ "method": self.method, "url": self.url, "request": self.request, "reply": format!("{:?}", self.reply) })
    }
}

type Script = Arc<dyn Fn(&Exchange) -> Reply + Send + Sync>;
type Before = Arc<dyn Fn(&Exchange) -> Option<Reply> + Send + Sync>;
type After = Arc<dyn Fn(&Exchange) -> Option<Reply> + Send + Sync>;

#[derive(Clone)]
enum Node {
    Real(MemServer),
    Script(Script),
}

#[derive(Default)]
struct Inner {
    nodes: Mutex<HashMap<String, Node>>,
    log: Mutex<Vec<Exchange>>,
    before: Mutex<Option<Before>>,
    after: Mutex<Option<After>>,
    requests: AtomicU64,
    /// 0: no bound
    budget: AtomicU64,
    exhausted: tokio::sync::Notify,
    /// seed of the scheduling noise; 0: none
    yields: AtomicU64,
}

#[derive(Clone, Default)]
pub struct Net(Arc<Inner>);

impl Net {
    pub fn new() -> Self {
        Self::default()
    }

    pub fn put(&self, host: &str, server: MemServer) {
        self.0.nodes.lock().unwrap().insert(host.to_string(), Node::Real(server));
    }

    pub fn script(&self, host: &str, script: impl Fn(&Exchange) -> Reply + Send + Sync + 'static) {
        self.0.nodes.lock().unwrap().insert(host.to_string(), Node::Script(Arc::new(script)));
    }

    pub fn remove(&self, host: &str) {
        self.0.nodes.lock().unwrap().remove(host);
    }

    /// Answer instead of the server.
    pub fn before(&self, hook: impl Fn(&Exchange) -> Option<Reply> + Send + Sync + 'static) {
        *self.0.before.lock().unwrap() = Some(Arc::new(hook));
    }

    /// Replace the server's answer.
    pub fn after(&self, hook: impl Fn(&Exchange) -> Option<Reply> + Send + Sync + 'static) {
        *self.0.after.lock().unwrap() = Some(Arc::new(hook));
    }

    /// Let other tasks run at every exchange, as often as the seed says.
    pub fn yields(&self, seed: u64) {
        self.0.yields.store(seed, Ordering::SeqCst);
    }

    pub fn honest(&self) {
        *self.0.before.lock().unwrap() = None;
        *self.0.after.lock().unwrap() = None;
    }

    pub fn log(&self) -> Vec<Exchange> {
        self.0.log.lock().unwrap().clone()
    }

    pub fn take_log(&self) -> Vec<Exchange> {
        std::mem::take(&mut self.0.log.lock().unwrap())
    }

    pub fn client(&self, last: u8) -> MemClient {
        MemClient { net: self.clone(), address: SocketAddr::from(([10, 0, 0, last], 40_000 + last as u16)) }
    }

    /// Run `future` unless it makes more than `budget` requests first.
    pub async fn bounded<T>(&self, budget: u64, future: impl Future<Output = T>) -> Option<T> {
        self.0.requests.store(0, Ordering::SeqCst);
        self.0.budget.store(budget, Ordering::SeqCst);
        let result = tokio::select! {
            biased;
            _ = self.0.exhausted.notified() => None,
            value = future => Some(value),
        };
        self.0.budget.store(0, Ordering::SeqCst);
        result
    }

    /// Deliver a raw request to a node, as any HTTP client could.
    pub async fn raw(&self, host: &str, method: &str, path: &str, body: Option<Vec<u8>>) -> Reply {
        let node = self.0.nodes.lock().unwrap().get(host).cloned();
        match node {
            Some(Node::Real(server)) => server.handle(method, path, SocketAddr::from(([10, 0, 0, 250], 50_000)), body).await,
            _ => Reply::Fail,
        }
    }

    pub async fn post(&self, host: &str, path: &str, body: &Json) -> Reply {
        self.raw(host, "POST", path, Some(body.to_string().into_bytes())).await
    }

    async fn pass(&self, n: u64) {
        let seed = self.0.yields.load(Ordering::SeqCst);
        if seed != 0 {
            let times = (seed ^ n).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 61;
            for _ in 0..times {
                tokio::task::yield_now().await;
            }
        }
    }

    async fn exchange(&self, from: SocketAddr, method: &'static str, url: &str, request: Option<Json>) -> Reply {
        let made = self.0.requests.fetch_add(1, Ordering::SeqCst) + 1;
        let budget = self.0.budget.load(Ordering::SeqCst);

        if budget != 0 && made > budget {
            self.0.exhausted.notify_one();
            std::future::pending::<()>().await;
        }

        self.pass(made).await;

        let (host, path) = match url.strip_prefix("http://").or_else(|| url.strip_prefix("https://")) {
            // a server's name may have a path itself
            Some(rest) => match self.0.nodes.lock().unwrap().keys()
                .filter_map(|name| rest.strip_prefix(name.as_str()).filter(|path| path.starts_with('/')).map(|path| (name.clone(), path.to_string())))
                .max_by_key(|(name, _)| name.len())
            {
                Some(place) => place,
                None => match rest.split_once('/') {
                    Some((host, path)) => (host.to_string(), format!("/{path}")),
                    None => (rest.to_string(), "/".to_string()),
                },
            },
            None => (String::new(), String::new()),
        };

        let mut exchange = Exchange { from, method, url: url.to_string(), host, path, request, reply: Reply::Fail };

        let before = self.0.before.lock().unwrap().clone();
        let scripted = before.and_then(|hook| hook(&exchange));

        exchange.reply = match scripted {
            Some(reply) => reply,
            None => {
                let node = self.0.nodes.lock().unwrap().get(&exchange.host).cloned();
                match node {
                    None => Reply::Fail,
                    Some(Node::Script(script)) => script(&exchange),
                    Some(Node::Real(server)) => {
                        let body = exchange.request.as_ref().map(|json| json.to_string().into_bytes());
                        server.handle(method, &exchange.path, from, body).await
                    }
                }
            }
        };

        let after = self.0.after.lock().unwrap().clone();
        if let Some(reply) = after.and_then(|hook| hook(&exchange)) {
            exchange.reply = reply;
        }

        let reply = exchange.reply.clone();
        {
            let mut log = self.0.log.lock().unwrap();
            if log.len() < 100_000 {
                log.push(exchange);
            }
        }

        self.pass(made.wrapping_mul(31)).await;

        reply
    }
}

#[derive(Clone)]
pub struct MemClient {
    pub net: Net,
    pub address: SocketAddr,
}

impl std::fmt::Debug for MemClient {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("MemClient")
    }
}

fn respond(reply: Reply) -> Result<HttpResponse, BoxError> {
    match reply {
        Reply::Fail => Err("connection refused".into()),
        Reply::Text(status, text) => match serde_json::from_str::<Json>(&text) {
            Ok(json) => Ok(HttpResponse { status, body: Some(json) }),
            Err(err) => Err(Box::new(err)),
        },
    }
}

#[async_trait::async_trait]
impl HttpClient for MemClient {
    async fn get(&self, url: impl AsRef<str> + Send) -> Result<HttpResponse, BoxError> {
        respond(self.net.exchange(self.address, "GET", url.as_ref(), None).await)
    }

    async fn post(&self, url: impl AsRef<str> + Send, body: Json) -> Result<HttpResponse, BoxError> {
        respond(self.net.exchange(self.address, "POST", url.as_ref(), Some(body)).await)
    }
}

// ------------------------------------------------------------ real servers

pub type RealServer = ServerMiddleware<MemClient, MemServer, GlobalTableRouter, BfsRecursionTraversal, StoredQueueMessagesInbox>;
pub type RealDriver = ServerDriver<GlobalTableRouter, BfsRecursionTraversal, StoredQueueMessagesInbox>;

/// One server of the network under test: the real middleware with the real
/// router and inbox on its own folders.
pub struct Host {
    pub name: String,
    pub secret: SecretKey,
    pub dir: PathBuf,
    pub driver: Arc<RealDriver>,
}

pub async fn driver(dir: &Path, secret: &SecretKey, address: &str) -> std::io::Result<RealDriver> {
    let router = GlobalTableRouter::new(dir.join("router")).await?;
    let inbox = StoredQueueMessagesInbox::new(dir.join("inbox")).await?;
    Ok(ServerDriver::new(router, BfsRecursionTraversal, inbox, ServerParams {
        secret_key: secret.clone(),
        address: address.to_string(),
    }))
}

impl Host {
    pub async fn start(net: &Net, name: &str, secret: SecretKey, dir: PathBuf) -> Self {
        let driver = driver(&dir, &secret, name).await.expect("server folders");
        let server: RealServer = ServerMiddleware::new(net.client(200), MemServer::default(), driver).await;
        net.put(name, server.http_server().clone());
        Self { name: name.to_string(), secret, dir, driver: server.driver() }
    }

    pub async fn restart(&mut self, net: &Net) {
        *self = Self::start(net, &self.name.clone(), self.secret.clone(), self.dir.clone()).await;
    }

    pub fn public(&self) -> PublicKey {
        self.secret.public_key()
    }
}

/// Full content of a directory tree: relative path -> None for folders,
/// bytes for files.
pub fn tree(dir: &Path) -> std::collections::BTreeMap<String, Option<Vec<u8>>> {
    fn walk(base: &Path, dir: &Path, out: &mut std::collections::BTreeMap<String, Option<Vec<u8>>>) {
        let Ok(entries) = std::fs::read_dir(dir) else { return };
        for entry in entries.flatten() {
            let path = entry.path();
            let name = path.strip_prefix(base).unwrap_or(&path).to_string_lossy().into_owned();
            match entry.file_type() {
                Ok(kind) if kind.is_dir() => {
                    out.insert(name, None);
                    walk(base, &path, out);
                }
                _ => {
                    out.insert(name, Some(std::fs::read(&path).unwrap_or_default()));
                }
            }
        }
    }
    let mut out = std::collections::BTreeMap::new();
    walk(dir, dir, &mut out);
    out
}

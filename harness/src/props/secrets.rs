//! C23: taint monitor. Sessions of clients and servers run with every
//! trace point enabled; everything they emit (requests, replies, files,
//! errors, trace output, debug forms, stdout and stderr, the bytes on real
//! sockets) is searched for pieces of every secret, in many encodings.

use std::cell::RefCell;
use std::collections::HashMap;
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use hyperborealib::prelude::*;
use hyperborealib::rest_api::types::Server as ServerRecord;
use serde_json::{json, Value as Json};
use tokio::io::{AsyncReadExt, AsyncWriteExt};

use crate::ctx::{block_on, hash_of, Ctx, Job};
use crate::gen::{self, Rng};
use crate::httpd;
use crate::net::{tree, Host, Net, Reply};
use crate::props::client::Connected;
use crate::props::server::Party;
use crate::refimpl as r;

// ----------------------------------------------------------------- needles

/// A piece of this many bytes of a secret is a leak.
const PIECE: usize = 12;

/// `bytes` written in digits of `bits` bits, after `skip` unknown bytes:
/// only the digits that `bytes` alone determines.
fn digits(bytes: &[u8], skip: usize, bits: usize, alphabet: &[u8]) -> Vec<u8> {
    let at = |i: usize| {
        (0..bits).fold(0usize, |digit, k| {
            let bit = i * bits + k - skip * 8;
            digit << 1 | (bytes[bit / 8] >> (7 - bit % 8) & 1) as usize
        })
    };
    let first = (skip * 8).div_ceil(bits);
    let last = (skip + bytes.len()) * 8 / bits;
    (first..last).map(|i| alphabet[at(i)]).collect()
}

const STANDARD: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
const URL_SAFE: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
const BASE32: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567";

fn listed(bytes: &[u8], separator: &str, show: impl Fn(u8) -> String) -> Vec<u8> {
    bytes.iter().map(|b| show(*b)).collect::<Vec<_>>().join(separator).into_bytes()
}

/// Every form of a piece that is looked for.
fn forms(piece: &[u8]) -> Vec<(&'static str, Vec<u8>)> {
    let reversed: Vec<u8> = piece.iter().rev().copied().collect();
    let mut out: Vec<(&'static str, Vec<u8>)> = vec![
        ("raw", piece.to_vec()),
        ("raw reversed", reversed.clone()),
        ("hex", listed(piece, "", |b| format!("{b:02x}"))),
        ("upper hex", listed(piece, "", |b| format!("{b:02X}"))),
        ("hex reversed", listed(&reversed, "", |b| format!("{b:02x}"))),
        ("upper hex reversed", listed(&reversed, "", |b| format!("{b:02X}"))),
        ("hex list", listed(piece, ", ", |b| format!("{b:02x}"))),
        ("short hex list", listed(piece, ", ", |b| format!("{b:x}"))),
        ("0x list", listed(piece, ", ", |b| format!("0x{b:02x}"))),
        ("colon hex", listed(piece, ":", |b| format!("{b:02x}"))),
        ("spaced hex", listed(piece, " ", |b| format!("{b:02x}"))),
        ("percent", listed(piece, "", |b| format!("%{b:02x}"))),
        ("upper percent", listed(piece, "", |b| format!("%{b:02X}"))),
        ("decimal list", listed(piece, ", ", |b| b.to_string())),
        ("compact decimal list", listed(piece, ",", |b| b.to_string())),
        ("spaced decimal list", listed(piece, " ", |b| b.to_string())),
        ("decimal lines", listed(piece, ",\n", |b| format!("    {b}"))),
        ("latin-1 as utf-8", piece.iter().map(|b| *b as char).collect::<String>().into_bytes()),
    ];
    for skip in 0..3 {
        out.push(("base64", digits(piece, skip, 6, STANDARD)));
        out.push(("url-safe base64", digits(piece, skip, 6, URL_SAFE)));
    }
    for skip in 0..5 {
        let upper = digits(piece, skip, 5, BASE32);
        out.push(("base32", upper.to_ascii_lowercase()));
        out.push(("upper base32", upper));
    }
    out
}

/// The secret as the numbers a program may keep it in.
fn numbers(secret: &[u8; 32]) -> Vec<(&'static str, Vec<u8>)> {
    let words: Vec<u64> = secret.chunks(8).map(|c| u64::from_be_bytes(c.try_into().expect("8"))).collect();
    words.windows(2).flat_map(|pair| [
        ("decimal words", format!("{}, {}", pair[0], pair[1]).into_bytes()),
        ("reversed decimal words", format!("{}, {}", pair[1], pair[0]).into_bytes()),
    ]).collect()
}

type Found = (String, &'static str, usize);

/// Multi-pattern search by the first eight bytes.
struct Scanner {
    filter: Vec<u64>,
    needles: HashMap<u64, Vec<(Vec<u8>, u32, &'static str)>>,
    labels: Vec<String>,
}

fn slot(prefix: u64) -> usize {
    (prefix.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 42) as usize
}

impl Scanner {
    fn new(secrets: &[(String, [u8; 32])]) -> Self {
        let mut scanner = Self { filter: vec![0; 1 << 16], needles: HashMap::new(), labels: Vec::new() };
        for (label, secret) in secrets {
            scanner.labels.push(label.clone());
            let mut all: Vec<(&'static str, Vec<u8>)> = (0..=32 - PIECE).step_by(4).flat_map(|at| forms(&secret[at..at + PIECE])).collect();
            all.extend(numbers(secret));
            for (form, needle) in all {
                let prefix = u64::from_ne_bytes(needle[..8].try_into().expect("8"));
                scanner.filter[slot(prefix) / 64] |= 1 << (slot(prefix) % 64);
                let entry = scanner.needles.entry(prefix).or_default();
                if !entry.iter().any(|(other, ..)| *other == needle) {
                    entry.push((needle, scanner.labels.len() as u32 - 1, form));
                }
            }
        }
        scanner
    }

    fn scan(&self, bytes: &[u8]) -> Option<Found> {
        for at in 0..bytes.len().saturating_sub(7) {
            let prefix = u64::from_ne_bytes(bytes[at..at + 8].try_into().expect("8"));
            if self.filter[slot(prefix) / 64] >> (slot(prefix) % 64) & 1 == 0 {
                continue;
            }
            for (needle, label, form) in self.needles.get(&prefix).into_iter().flatten() {
                if bytes[at..].starts_with(needle) {
                    return Some((self.labels[*label as usize].clone(), form, at));
                }
            }
        }
        None
    }
}

/// The monitor sees what it must see: every form of every secret, planted.
fn self_test(ctx: &Ctx, secrets: &[(String, [u8; 32])], scanner: &Scanner, rng: &mut Rng) {
    for (label, secret) in secrets {
        let at = rng.below((32 - PIECE - 3) as u64) as usize;
        // pieces start at multiples of four: any 15 bytes contain one
        for (form, text) in forms(&secret[at..at + PIECE + 3]) {
            let mut hay = gen::word(rng, 30).into_bytes();
            hay.extend(text);
            hay.extend(gen::word(rng, 30).into_bytes());
            if scanner.scan(&hay).is_none() {
                ctx.error(format!("the scanner misses {label} as {form}"));
            }
            ctx.count("planted leaks found", 1);
        }
    }
}

// ------------------------------------------------------------------ traces

thread_local! {
    static TRACES: RefCell<Option<Vec<String>>> = const { RefCell::new(None) };
}

static STRAY: Mutex<String> = Mutex::new(String::new());
static SPANS: AtomicU64 = AtomicU64::new(1);

/// Every span and event of every level, with all fields.
struct Everything;

struct Fields(String);

impl tracing::field::Visit for Fields {
    fn record_str(&mut self, field: &tracing::field::Field, value: &str) {
        self.0.push_str(&format!(" {}={value}", field.name()));
    }

    fn record_error(&mut self, field: &tracing::field::Field, value: &(dyn std::error::Error + 'static)) {
        self.0.push_str(&format!(" {}={value} {value:?}", field.name()));
    }

    fn record_debug(&mut self, field: &tracing::field::Field, value: &dyn std::fmt::Debug) {
        self.0.push_str(&format!(" {}={value:?}", field.name()));
    }
}

fn trace(line: String) {
    let kept = TRACES.with(|t| match t.try_borrow_mut() {
        Ok(mut traces) => match traces.as_mut() {
            Some(traces) => {
                traces.push(line.clone());
                true
            }
            None => false,
        },
        Err(_) => false,
    });
    if !kept {
        let mut stray = STRAY.lock().unwrap();
        if stray.len() < 256 << 20 {
            stray.push_str(&line);
            stray.push('\n');
        }
    }
}

impl tracing::Subscriber for Everything {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        true
    }

    fn new_span(&self, span: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        let mut fields = Fields(String::new());
        span.record(&mut fields);
        trace(format!("{} span {}{}", span.metadata().level(), span.metadata().name(), fields.0));
        tracing::span::Id::from_u64(SPANS.fetch_add(1, Ordering::Relaxed))
    }

    fn record(&self, _: &tracing::span::Id, values: &tracing::span::Record<'_>) {
        let mut fields = Fields(String::new());
        values.record(&mut fields);
        trace(format!("record{}", fields.0));
    }

    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}

    fn event(&self, event: &tracing::Event<'_>) {
        let mut fields = Fields(String::new());
        event.record(&mut fields);
        trace(format!("{} event {}{}", event.metadata().level(), event.metadata().target(), fields.0));
    }

    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

// ---------------------------------------------------------------- sessions

fn party(rng: &mut Rng) -> Party {
    loop {
        let raw = rng.array32();
        if let Ok(key) = k256::SecretKey::from_slice(&raw) {
            let public = r::public_of(&raw);
            let secret = SecretKey::from(key);
            return Party { raw, public, key: secret.public_key(), secret, b64: r::b64(&public) };
        }
    }
}

/// The keys, and everything two of them share.
fn secrets_of(parties: &[(String, &Party)]) -> Vec<(String, [u8; 32])> {
    let mut out: Vec<(String, [u8; 32])> = parties.iter().map(|(name, p)| (format!("the secret key of {name}"), p.raw)).collect();
    for (i, (a, first)) in parties.iter().enumerate() {
        for (b, second) in &parties[..i] {
            let shared = k256::ecdh::diffie_hellman(
                k256::SecretKey::from_slice(&first.raw).expect("key").to_nonzero_scalar(),
                k256::PublicKey::from_sec1_bytes(&second.public).expect("key").as_affine(),
            );
            let x: [u8; 32] = shared.raw_secret_bytes().as_slice().try_into().expect("32");
            out.push((format!("the Diffie-Hellman point of {a} and {b}"), x));
            out.push((format!("the shared secret of {a} and {b}"), r::shared(&first.raw, &second.public, None)));
            out.push((format!("the salted shared secret of {a} and {b}"), r::shared(&first.raw, &second.public, Some(b"salt"))));
        }
    }
    out
}

/// What a session emitted, by kind.
#[derive(Default)]
struct Artefacts(Vec<(&'static str, String, Vec<u8>)>);

impl Artefacts {
    fn add(&mut self, kind: &'static str, what: impl Into<String>, bytes: impl Into<Vec<u8>>) {
        self.0.push((kind, what.into(), bytes.into()));
    }

    fn error(&mut self, what: &str, err: &(dyn std::error::Error + 'static)) {
        let mut text = format!("{err} | {err:?} | {err:#?}");
        let mut source = err.source();
        while let Some(inner) = source {
            text.push_str(&format!(" | {inner} | {inner:?}"));
            source = inner.source();
        }
        self.add("error", what, text);
    }

    fn result<T>(&mut self, what: &str, result: &Result<T, impl std::error::Error + 'static>) {
        if let Err(err) = result {
            self.error(what, err);
        }
    }

    fn debug(&mut self, what: &str, value: &impl std::fmt::Debug) {
        self.add("debug form", what, format!("{value:?} {value:#?}"));
    }
}

fn judge(job: &Job, scanner: &Scanner, artefacts: Artefacts) {
    for (kind, what, bytes) in artefacts.0 {
        job.ctx.observe(&(kind, hash_of(&bytes)));
        job.ctx.count(&format!("{} scanned", match kind { "reply" => "replies".into(), other => format!("{other}s") }), 1);
        job.ctx.count("bytes scanned", bytes.len() as u64);
        if let Some((secret, form, at)) = scanner.scan(&bytes) {
            let from = at.saturating_sub(80);
            let until = (at + 160).min(bytes.len());
            job.fail(format!("{secret} is in a {kind}"), json!({
                "where": what, "encoding": form, "around": String::from_utf8_lossy(&bytes[from..until]),
            }));
            return;
        }
    }
}

/// Replies spoiled on the way back.
fn spoil(rng: &mut Rng, reply: &Reply) -> Reply {
    let Reply::Text(status, text) = reply else { return Reply::Fail };
    match rng.below(8) {
        0 => Reply::Fail,
        1 => Reply::Text(500, text.clone()),
        2 => Reply::Text(*status, text.chars().take(text.chars().count() / 2).collect()),
        3 => Reply::Text(*status, "[]".into()),
        4 => Reply::json(&r::error_json(400 + rng.below(10), "no")),
        5 => Reply::Text(*status, text.replace("\"status\":100", "\"status\":200")),
        _ => {
            let mut json: Json = serde_json::from_str(text).unwrap_or_default();
            match rng.below(4) {
                0 => json["proof"]["sign"] = json!("AAAA"),
                1 => json["public_key"] = json!("nonsense"),
                2 => json["response"] = json!({}),
                _ => json["standard"] = json!(7),
            }
            Reply::json(&json)
        }
    }
}

fn deny(dir: &Path, yes: bool) {
    use std::os::unix::fs::PermissionsExt;
    let _ = std::fs::set_permissions(dir, std::fs::Permissions::from_mode(if yes { 0o000 } else { 0o755 }));
}

fn session(job: &mut Job) {
    let mut rng = job.rng.fork();
    let rng = &mut rng;
    let net = Net::new();
    let dir = job.ctx.fresh_dir("secrets");
    let names = ["a.example", "b.example", "c.example"];
    let servers: Vec<Party> = names.iter().map(|_| party(rng)).collect();
    let people: Vec<Party> = (0..4).map(|_| party(rng)).collect();
    let parties: Vec<(String, &Party)> = servers.iter().enumerate().map(|(i, p)| (format!("server {i}"), p))
        .chain(people.iter().enumerate().map(|(i, p)| (format!("client {i}"), p))).collect();
    let secrets = secrets_of(&parties);
    let scanner = Scanner::new(&secrets);
    if job.index < 4 {
        self_test(job.ctx, &secrets, &scanner, rng);
    }

    TRACES.with(|t| *t.borrow_mut() = Some(Vec::new()));
    let mut out = Artefacts::default();

    block_on(async {
        let mut hosts = Vec::new();
        for (name, server) in names.iter().zip(&servers) {
            hosts.push(Host::start(&net, name, server.secret.clone(), dir.join(name)).await);
        }
        // a server may act as a client too
        let mut clients: Vec<ClientMiddleware<_>> = people.iter().enumerate().map(|(i, p)| {
            let driver = match rng.below(3) {
                0 => ClientDriver::thin(p.secret.clone()),
                1 => ClientDriver::new(gen::client_info(rng), p.secret.clone()),
                _ => ClientDriver::new(ClientInfo { client_type: ClientType::Server, address: Some("x.example".into()) }, p.secret.clone()),
            };
            ClientMiddleware::new(net.client(i as u8 + 1), driver)
        }).collect();
        clients.push(ClientMiddleware::new(net.client(9), hosts[0].driver.as_client()));
        let keys: Vec<&Party> = people.iter().chain([&servers[0]]).collect();
        let mut connected: Vec<Option<Connected>> = clients.iter().map(|_| None).collect();

        for client in &clients {
            out.debug("client", client);
            out.debug("client driver", client.driver_ref());
        }
        for host in &hosts {
            out.debug("server parameters", host.driver.params());
        }
        for p in &keys {
            out.debug("secret key", &p.secret);
        }

        for _ in 0..30 + rng.below(30) {
            // faults of this step
            let faulty = rng.chance(25);
            if faulty {
                let spoiler = Mutex::new(rng.fork());
                net.after(move |exchange| {
                    let mut rng = spoiler.lock().unwrap();
                    rng.bool().then(|| spoil(&mut rng, &exchange.reply))
                });
            }
            let denied = rng.chance(10).then(|| {
                let name = *rng.pick(&names);
                dir.join(name).join(*rng.pick(&["inbox", "router"]))
            });
            if let Some(dir) = &denied {
                deny(dir, true);
            }

            let i = rng.below(clients.len() as u64) as usize;
            let j = rng.below(clients.len() as u64) as usize;
            let server = rng.below(3) as usize;
            let name = if rng.chance(90) { names[server] } else { "nowhere.example" };
            let (me, other) = (keys[i], keys[j]);
            let what: &'static str = match rng.below(16) {
                0 => {
                    out.result("get_info", &clients[i].get_info(name).await);
                    out.result("get_clients", &clients[i].get_clients(name).await);
                    out.result("get_servers", &clients[i].get_servers(name).await);
                    "read"
                }
                1 | 2 => {
                    let result = clients[i].connect(name).await;
                    out.result("connect", &result);
                    if let Ok(client) = result {
                        out.debug("connected client", &client);
                        out.debug("certificate", client.connection_certificate());
                        connected[i] = Some(client);
                    }
                    "connect"
                }
                3 | 4 => {
                    let key = if rng.chance(80) { servers[server].key.clone() } else { other.key.clone() };
                    let result = clients[i].connect_to(name, key).await;
                    out.result("connect_to", &result);
                    if let Ok(client) = result {
                        connected[i] = Some(client);
                    }
                    "connect_to"
                }
                5 => {
                    if let Some(client) = connected[i].take() {
                        out.result("disconnect", &client.disconnect().await);
                    }
                    "disconnect"
                }
                6 => {
                    if let Some(client) = &connected[i] {
                        out.result("announce", &client.announce(format!("http://{name}")).await);
                    }
                    "announce"
                }
                7 => {
                    if let Some(client) = &connected[i] {
                        out.result("lookup", &client.lookup(other.key.clone(), gen::opt_client_type(rng)).await);
                    }
                    "lookup"
                }
                8..=10 => {
                    let encoding = gen::encoding(rng);
                    let content = gen::content(rng, 300);
                    let message = Message::create(&me.secret, &other.key, &content, encoding, gen::level(rng));
                    out.result("create", &message);
                    if let (Ok(message), Some(client)) = (message, &connected[i]) {
                        out.debug("message", &message);
                        let address = match rng.below(3) {
                            0 => format!("hyperborea://{}", other.b64),
                            _ => format!("http://{name}"),
                        };
                        out.result("send", &client.send(address, other.key.clone(), "channel", message).await);
                    }
                    "send"
                }
                11 | 12 => {
                    if let Some(client) = &connected[i] {
                        let result = client.poll("channel", Some(rng.below(4))).await;
                        out.result("poll", &result);
                        for info in result.map(|(messages, _)| messages).unwrap_or_default() {
                            out.debug("message info", &info);
                            // with the right and the wrong keys
                            out.result("read", &info.message.read(&me.secret, &info.sender.client.public_key));
                            out.result("read with wrong keys", &info.message.read(&other.secret, &me.key));
                        }
                    }
                    "poll"
                }
                13 => {
                    let (driver, http) = (hosts[server].driver.clone(), net.client(200));
                    let _ = net.bounded(60, driver.traversal().traverse(http, &driver)).await;
                    "traverse"
                }
                14 => {
                    // what a hostile client sends
                    let path = *rng.pick(&["connect", "disconnect", "announce", "lookup", "send", "poll", "nothing"]);
                    let mut body = r::request_json(&me.raw, rng.u64() | 1 << 63, json!({ "channel": "channel", "public_key": other.b64, "client": {} }));
                    match rng.below(4) {
                        0 => body["proof"]["sign"] = json!("AAAA"),
                        1 => body["public_key"] = json!(other.b64),
                        2 => body["standard"] = json!("x"),
                        _ => (),
                    }
                    let _ = net.post(name, &format!("/api/v1/{path}"), &body).await;
                    let reply = net.raw(name, "POST", &format!("/api/v1/{path}"), Some(rng.bytes(40))).await;
                    out.add("reply", "to nonsense", format!("{reply:?}"));
                    "hostile"
                }
                _ => {
                    // the server's own storage, used directly
                    let driver = &hosts[server].driver;
                    out.result("local clients", &driver.router().local_clients().await);
                    out.result("servers", &driver.router().servers().await);
                    out.result("index", &driver.router().index_server(ServerRecord::new(other.key.clone(), name)).await);
                    out.result("inbox", &driver.messages_inbox().poll_messages(me.key.clone(), "channel".into(), None).await);
                    "storage"
                }
            };
            job.ctx.count(&format!("{what} operations"), 1);
            if faulty {
                net.honest();
                job.ctx.count("steps with spoiled replies", 1);
            }
            if let Some(dir) = &denied {
                deny(dir, false);
                job.ctx.count("steps with denied storage", 1);
            }
        }
    });

    for exchange in net.take_log() {
        let what = format!("{} {}", exchange.method, exchange.url);
        if let Some(request) = &exchange.request {
            out.add("request", &what, format!("{what} {request}"));
        }
        out.add("reply", &what, match &exchange.reply {
            Reply::Text(_, text) => text.clone(),
            Reply::Fail => String::new(),
        });
    }
    for (path, content) in tree(&dir) {
        out.add("file", path.clone(), path.into_bytes());
        if let Some(content) = content {
            out.add("file", "content", content);
        }
    }
    let traces = TRACES.with(|t| t.borrow_mut().take()).unwrap_or_default();
    for line in traces {
        out.add("trace", "trace", line);
    }
    judge(job, &scanner, out);
    ALL.lock().unwrap().extend(secrets);
    let _ = std::fs::remove_dir_all(dir);
}

/// Secrets of all sessions, for what cannot be told apart by session.
static ALL: Mutex<Vec<(String, [u8; 32])>> = Mutex::new(Vec::new());

// -------------------------------------------------------------- real HTTP

/// Passes a TCP connection on and keeps every byte, both ways.
async fn tap(target: std::net::SocketAddr, kept: Arc<Mutex<Vec<u8>>>) -> std::net::SocketAddr {
    let listener = tokio::net::TcpListener::bind(("127.0.0.1", 0)).await.expect("loopback");
    let address = listener.local_addr().expect("address");
    tokio::spawn(async move {
        while let Ok((near, _)) = listener.accept().await {
            let Ok(far) = tokio::net::TcpStream::connect(target).await else { continue };
            let (mut near_in, mut near_out) = near.into_split();
            let (mut far_in, mut far_out) = far.into_split();
            let (kept_up, kept_down) = (kept.clone(), kept.clone());
            tokio::spawn(async move {
                let mut buffer = vec![0; 1 << 16];
                let mut all = Vec::new();
                while let Ok(n) = near_in.read(&mut buffer).await {
                    all.extend_from_slice(&buffer[..n]);
                    if n == 0 || far_out.write_all(&buffer[..n]).await.is_err() {
                        break;
                    }
                }
                let _ = far_out.shutdown().await;
                kept_up.lock().unwrap().extend(all);
            });
            tokio::spawn(async move {
                let mut buffer = vec![0; 1 << 16];
                let mut all = Vec::new();
                while let Ok(n) = far_in.read(&mut buffer).await {
                    all.extend_from_slice(&buffer[..n]);
                    if n == 0 || near_out.write_all(&buffer[..n]).await.is_err() {
                        break;
                    }
                }
                let _ = near_out.shutdown().await;
                kept_down.lock().unwrap().extend(all);
            });
        }
    });
    address
}

fn sockets(job: &mut Job) {
    let mut rng = job.rng.fork();
    let rng = &mut rng;
    let server = party(rng);
    let people: Vec<Party> = (0..3).map(|_| party(rng)).collect();
    let parties: Vec<(String, &Party)> = people.iter().enumerate().map(|(i, p)| (format!("client {i}"), p)).chain([("the server".to_string(), &server)]).collect();
    let secrets = secrets_of(&parties);
    let scanner = Scanner::new(&secrets);
    let dir = job.ctx.fresh_dir("sockets");
    let kept: Arc<Mutex<Vec<u8>>> = Arc::default();
    let mut out = Artefacts::default();

    let runtime = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
    runtime.block_on(async {
        let running = httpd::start(&dir, server.secret.clone()).await;
        let address = tap(running.address, kept.clone()).await.to_string();
        let mut connected = Vec::new();
        for p in &people {
            let client = ClientMiddleware::new(ReqwestHttpClient::default(), ClientDriver::thin(p.secret.clone()));
            out.debug("http client", client.http_client_ref());
            out.result("info", &client.get_info(&address).await);
            match client.connect(&address).await {
                Ok(client) => connected.push(client),
                Err(err) => job.fail("a client cannot connect", json!(format!("{err:?}"))),
            }
        }
        if connected.len() < people.len() {
            return;
        }
        for (i, client) in connected.iter().enumerate() {
            let j = (i + 1) % people.len();
            out.result("announce", &client.announce(format!("http://{address}")).await);
            out.result("lookup", &client.lookup(people[j].key.clone(), None).await);
            for encoding in [gen::encoding(rng), gen::encoding(rng)] {
                let message = Message::create(&people[i].secret, &people[j].key, gen::content(rng, 300), encoding, gen::level(rng)).expect("message");
                out.result("send", &client.send(format!("http://{address}"), people[j].key.clone(), "channel", message).await);
            }
            out.result("nowhere", &client.announce("http://127.0.0.1:1").await);
        }
        for client in connected {
            out.result("poll", &client.poll("channel", None).await);
            out.result("clients", &client.disconnected().get_clients(&address).await);
            out.result("disconnect", &client.disconnect().await);
        }
        drop(running);
    });
    runtime.shutdown_timeout(Duration::from_secs(5));

    let bytes = std::mem::take(&mut *kept.lock().unwrap());
    job.ctx.count("socket bytes", bytes.len() as u64);
    out.add("socket", "both directions", bytes);
    for (path, content) in tree(&dir) {
        out.add("file", path.clone(), path.into_bytes());
        out.add("file", "content", content.unwrap_or_default());
    }
    judge(job, &scanner, out);
    ALL.lock().unwrap().extend(secrets);
    let _ = std::fs::remove_dir_all(dir);
}

/// Send what the process prints to a file that can be searched.
fn divert(path: &Path) -> Option<()> {
    use std::os::fd::AsRawFd;
    let file = std::fs::File::create(path).ok()?;
    unsafe {
        (libc::dup2(file.as_raw_fd(), 1) == 1 && libc::dup2(file.as_raw_fd(), 2) == 2).then_some(())
    }
}

pub fn c23(ctx: &Ctx) {
    let printed = ctx.scratch.join("printed");
    if divert(&printed).is_none() || tracing::subscriber::set_global_default(Everything).is_err() {
        ctx.error("the monitors could not be installed");
        return;
    }

    ctx.cases("session", ctx.scale(250, 4_000), session);
    ctx.cases("sockets", ctx.scale(24, 300), sockets);

    // what belongs to no session: other threads' traces, what was printed,
    // and files left anywhere in the scratch folder
    ctx.cases_on(1, "rest", 1, |job| {
        let secrets = std::mem::take(&mut *ALL.lock().unwrap());
        let keys: Vec<_> = secrets.into_iter().filter(|(label, _)| label.starts_with("the secret key") || label.starts_with("the shared")).take(6_000).collect();
        let scanner = Scanner::new(&keys);
        let mut out = Artefacts::default();
        out.add("trace", "other threads", std::mem::take(&mut *STRAY.lock().unwrap()));
        out.add("print", "stdout and stderr", std::fs::read(&printed).unwrap_or_default());
        let work = ctx.scratch.parent().unwrap_or(&ctx.scratch);
        for (path, content) in tree(work) {
            if path.ends_with("printed") {
                continue;
            }
            out.add("file", path.clone(), path.into_bytes());
            out.add("file", "content", content.unwrap_or_default());
        }
        judge(job, &scanner, out);
    });

    ctx.require("planted leaks found", 1_000);
    ctx.require("traces scanned", 20_000);
    ctx.require("requests scanned", 1_000);
    ctx.require("replies scanned", 1_000);
    ctx.require("files scanned", 1_000);
    ctx.require("errors scanned", 300);
    ctx.require("socket bytes", 100_000);
    ctx.require("steps with denied storage", 100);
}

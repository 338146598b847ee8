//! C07: hostile input. Everything that parses, decodes or validates is fed
//! mutated and random input; the panic monitor and the reply monitors decide.

use std::str::FromStr;

use serde_json::{json, Map, Value as Json};

use hyperborealib::prelude::*;

use crate::ctx::{block_on, hex, Ctx, Job};
use crate::gen::{self, Rng};
use crate::net::{Host, Net, Reply};
use crate::{httpd, refimpl, wire, wire_types};

// ---------------------------------------------------------------- mutators

pub fn random_json(rng: &mut Rng, depth: u32) -> Json {
    match rng.below(if depth == 0 { 10 } else { 13 }) {
        0 => Json::Null,
        1 => json!(rng.bool()),
        2 => json!(gen::int(rng)),
        3 => json!(gen::int(rng) as i64),
        4 => json!(-(rng.below(1000) as i64)),
        5 => json!(rng.u64() as f64 / 3.0),
        6 => json!(gen::string(rng, 40)),
        7 => json!(refimpl::b64(&gen::content(rng, 200))),
        8 => json!(*rng.pick(&["", "base64", "base64/aes256-gcm", "base64/", "/", "thin", "server", "local", "remote", "hint", "client"])),
        9 => {
            let n = rng.below(44) as usize;
            json!(refimpl::b64(&rng.bytes(n)))
        }
        10 => Json::Array((0..rng.below(4)).map(|_| random_json(rng, depth - 1)).collect()),
        11 => {
            let mut map = Map::new();
            for _ in 0..rng.below(4) {
                let key = match rng.below(3) {
                    0 => gen::string(rng, 10),
                    _ => (*rng.pick(KEYS)).to_string(),
                };
                map.insert(key, random_json(rng, depth - 1));
            }
            Json::Object(map)
        }
        _ => {
            let mut value = json!(1);
            for _ in 0..rng.below(100) {
                value = if rng.bool() { json!([value]) } else { json!({ "request": value }) };
            }
            value
        }
    }
}

const KEYS: &[&str] = &[
    "standard", "public_key", "proof", "seed", "sign", "request", "response", "status", "reason", "certificate", "token", "client", "server",
    "type", "info", "address", "body", "available", "servers", "clients", "messages", "remaining", "channel", "limit", "sender", "receiver",
    "message", "content", "encoding", "received_at", "0",
];

fn count_nodes(value: &Json) -> u64 {
    1 + match value {
        Json::Array(items) => items.iter().map(count_nodes).sum(),
        Json::Object(map) => map.values().map(count_nodes).sum(),
        _ => 0,
    }
}

fn nth_node(value: &mut Json, n: &mut u64, f: &mut dyn FnMut(&mut Json)) -> bool {
    if *n == 0 {
        f(value);
        return true;
    }
    *n -= 1;
    match value {
        Json::Array(items) => items.iter_mut().any(|item| nth_node(item, n, f)),
        Json::Object(map) => map.values_mut().any(|item| nth_node(item, n, f)),
        _ => false,
    }
}

/// One structural alteration somewhere in a document.
pub fn mutate(rng: &mut Rng, value: &mut Json) {
    let mut n = rng.below(count_nodes(value));
    let mut rng = rng.fork();
    nth_node(value, &mut n, &mut |node| {
        match node {
            Json::String(text) if rng.chance(70) => {
                let bytes = refimpl::unb64(text);
                match (rng.below(8), bytes) {
                    (0, _) => { text.pop(); }
                    (1, _) => text.push(*rng.pick(&['=', 'A', ' ', '\0', 'é', '/', '+'])),
                    (2, Some(mut bytes)) => { let n = rng.below(bytes.len() as u64 + 1) as usize; bytes.truncate(n); *text = refimpl::b64(&bytes); }
                    (3, Some(mut bytes)) => { let n = gen::length(&mut rng, 100); bytes.extend(rng.bytes(n)); *text = refimpl::b64(&bytes); }
                    (4, Some(mut bytes)) if !bytes.is_empty() => { let i = rng.below(bytes.len() as u64) as usize; bytes[i] ^= 1 << rng.below(8); *text = refimpl::b64(&bytes); }
                    (5, _) => { let n = gen::length(&mut rng, 300); *text = refimpl::b64(&rng.bytes(n)); }
                    (6, _) => *text = "A".repeat(gen::length(&mut rng, 70_000)),
                    _ => *text = gen::string(&mut rng, 60),
                }
            }
            Json::Number(_) if rng.chance(60) => *node = json!(gen::int(&mut rng)),
            Json::Object(map) if rng.chance(70) => {
                let keys: Vec<String> = map.keys().cloned().collect();
                if !keys.is_empty() {
                    let key = rng.pick(&keys).clone();
                    match rng.below(3) {
                        0 => { map.remove(&key); }
                        1 => { let v = map.remove(&key).unwrap_or_default(); map.insert((*rng.pick(KEYS)).to_string(), v); }
                        _ => { let other = map[rng.pick(&keys)].clone(); map.insert(key, other); }
                    }
                }
            }
            Json::Array(items) if rng.chance(60) => {
                if items.is_empty() { items.push(random_json(&mut rng, 2)) } else { let v = items[0].clone(); for _ in 0..rng.below(50) { items.push(v.clone()) } }
            }
            _ => *node = random_json(&mut rng, 3),
        }
    });
}

// ---------------------------------------------------------------- parsers

fn feed(job: &Job, what: &str, input: impl FnOnce() -> Json, f: impl FnOnce() -> bool) {
    job.ctx.eval();
    job.ctx.count("hostile inputs parsed", 1);
    match job.ctx.guard(f) {
        Ok(true) => job.ctx.count("hostile inputs accepted as values", 1),
        Ok(false) => job.ctx.count("hostile inputs refused", 1),
        Err(panic) => job.fail(format!("{what} panicked at {}:{}", panic.file, panic.line), json!({ "input": input(), "message": panic.message })),
    }
}

fn bytes_case(job: &mut Job) {
    let rng = &mut job.rng;
    let secret = gen::secret(rng);
    let public = secret.public_key();

    let genuine: Vec<u8> = match rng.below(6) {
        0 => ConnectionToken::new(gen::int(rng), public.clone()).to_bytes().to_vec(),
        1 => secret.create_encapsulated_signature(gen::content(rng, 300)),
        2 => public.to_bytes().to_vec(),
        3 => secret.create_signature(b"x"),
        4 => {
            let data = gen::content(rng, 2000);
            match rng.bool() {
                true => Compression::Deflate.compress(&data, CompressionLevel::Fast).unwrap_or_default(),
                false => Compression::Brotli.compress(&data, CompressionLevel::Fast).unwrap_or_default(),
            }
        }
        _ => gen::content(rng, 2000),
    };

    let mut bytes = genuine;
    match rng.below(6) {
        0 => { let n = rng.below(bytes.len() as u64 + 1) as usize; bytes.truncate(n); }
        1 => { let n = rng.below(20) as usize; bytes.extend(rng.bytes(n)); }
        2 if !bytes.is_empty() => { let i = rng.below(bytes.len() as u64) as usize; bytes[i] ^= 1 << rng.below(8); }
        3 if bytes.len() >= 8 => bytes[..8].copy_from_slice(&gen::int(rng).to_be_bytes()),
        4 => { let n = rng.below(80) as usize; bytes = rng.bytes(n); }
        _ => (),
    }
    let key = rng.array32();
    let salt = gen::content(rng, 100);

    let job = &*job;
    let input = || json!(hex(&bytes));
    job.ctx.nontrivial(&bytes);

    feed(job, "ConnectionToken::from_bytes", input, || ConnectionToken::from_bytes(&bytes).is_ok());
    feed(job, "PublicKey::from_bytes", input, || PublicKey::from_bytes(&bytes).is_ok());
    feed(job, "SecretKey::deserialize", input, || SecretKey::deserialize(&bytes).is_ok());
    feed(job, "PublicKey::verify_signature", input, || public.verify_signature(b"message", &bytes).is_ok());
    feed(job, "PublicKey::decode_encapsulated_signature", input, || public.decode_encapsulated_signature(&bytes).is_ok());
    feed(job, "SecretKey::create_shared_secret", input, || { secret.create_shared_secret(&public, Some(&bytes)); true });
    for compression in gen::COMPRESSIONS {
        feed(job, "Compression::decompress", input, || compression.decompress(&bytes).is_ok());
    }
    for encryption in gen::ENCRYPTIONS {
        feed(job, "Encryption::decrypt", input, || encryption.decrypt(&bytes, &key).is_ok());
    }
    let certificate = ConnectionCertificate { token: ConnectionToken::new(u64::MAX, public.clone()), sign: bytes.clone() };
    feed(job, "ConnectionCertificate::validate", input, || certificate.validate(&public, &public).is_ok());
    let _ = salt;
}

fn text_case(job: &mut Job) {
    let rng = &mut job.rng;
    let public = gen::secret(rng).public_key().to_base64();

    let mut text = match rng.below(8) {
        0 => gen::string(rng, 80),
        1 => gen::encoding(rng).to_string(),
        2 => public.clone(),
        3 => format!("{}://{}{}", rng.pick(&["hyperborea", "hyp", "hyp-client", "hyp-server", "hyp-file", "http", "https", "", "://"]), rng.pick(&["", "thin:", "thick:", "server:", "file:", ":", "thin"]), public),
        4 => refimpl::b64(&gen::content(rng, 300)),
        5 => (0..rng.below(40)).map(|_| *rng.pick(&['/', ':', '=', '-', '_', 'A', 'b', '6', '4'])).collect(),
        6 => ["base64", "aes256-gcm", "chacha20-poly1305", "deflate", "brotli", "none", ""].iter().map(|_| *rng.pick(&["base64", "aes256-gcm", "chacha20-poly1305", "deflate", "brotli", "none", ""])).take(4).collect::<Vec<_>>().join("/"),
        _ => random_json(rng, 2).to_string(),
    };
    if rng.bool() && !text.is_empty() {
        let chars: Vec<char> = text.chars().collect();
        let i = rng.below(chars.len() as u64) as usize;
        text = match rng.below(3) {
            0 => chars[..i].iter().collect(),
            1 => chars[i..].iter().collect(),
            _ => chars.iter().enumerate().map(|(j, c)| if j == i { 'é' } else { *c }).collect(),
        };
    }
    let secret = rng.array32();
    let encoding = gen::encoding(rng);
    let receiver = gen::secret(rng);
    let sender = gen::secret(rng).public_key();

    let job = &*job;
    let input = || json!(text);
    job.ctx.nontrivial(&text);

    feed(job, "base64_decode", input, || base64_decode(&text).is_ok());
    feed(job, "Encoding::decode", input, || Encoding::Base64.decode(&text).is_ok());
    feed(job, "PublicKey::from_base64", input, || PublicKey::from_base64(&text).is_ok());
    feed(job, "SecretKey::from_base64", input, || SecretKey::from_base64(&text).is_ok());
    feed(job, "MessageEncoding::from_str", input, || MessageEncoding::from_str(&text).is_ok());
    feed(job, "Encoding::from_str", input, || Encoding::from_str(&text).is_ok());
    feed(job, "Encryption::from_str", input, || Encryption::from_str(&text).is_ok());
    feed(job, "Compression::from_str", input, || Compression::from_str(&text).is_ok());
    feed(job, "ClientType::from_str", input, || ClientType::from_str(&text).is_ok());
    feed(job, "Address::from_str", input, || Address::from_str(&text).is_ok());
    feed(job, "address::parse", input, || parse_uri(&text).is_ok());
    feed(job, "MessageEncoding::backward", input, || encoding.backward(&text, &secret).is_ok());
    let message = Message::new(&text, &text, encoding);
    feed(job, "Message::read", input, || message.read(&receiver, &sender).is_ok());
    feed(job, "ResponseStatus::from_code", input, || ResponseStatus::from_code(text.len() as u64).is_some());
}

fn json_case(job: &mut Job) {
    let mut valid: Vec<(&'static str, Json)> = Vec::new();

    macro_rules! make {
        (@noserde $name:expr, $type:ty, $make:expr) => { make!($name, $type, $make) };
        ($name:expr, $type:ty, $make:expr) => {{
            let make = $make;
            let value: $type = make(&mut job.rng);
            if let Ok(json) = value.to_json() {
                valid.push(($name, json));
            }
        }};
    }
    wire_types!(make);

    let secret = gen::secret(&mut job.rng);
    let public = secret.public_key();

    for round in 0..valid.len() {
        let mut json = valid[round].1.clone();
        for _ in 0..job.rng.range(1, 3) {
            mutate(&mut job.rng, &mut json);
        }
        if job.rng.chance(5) {
            json = random_json(&mut job.rng, 4);
        }
        job.ctx.nontrivial(&json.to_string());
        job.ctx.sample("document", || json.clone());

        let job = &*job;
        macro_rules! parse {
            (@noserde $name:expr, $type:ty, $make:expr) => {
                feed(job, concat!($name, "::from_json"), || json.clone(), || <$type as AsJson>::from_json(&json).map(|v| { let _ = format!("{v:?}"); let _ = v.to_json(); }).is_ok());
            };
            ($name:expr, $type:ty, $make:expr) => {
                parse!(@noserde $name, $type, $make);
                feed(job, concat!($name, "::deserialize"), || json.clone(), || serde_json::from_value::<$type>(json.clone()).is_ok());
            };
        }
        wire_types!(parse);

        let input = || json.clone();
        feed(job, "SecretKey serde", input, || serde_json::from_value::<SecretKey>(json.clone()).is_ok());
        feed(job, "PublicKey serde", input, || serde_json::from_value::<PublicKey>(json.clone()).is_ok());
        feed(job, "u128", input, || u128::from_json(&json).is_ok());
        feed(job, "Vec<String>", input, || Vec::<String>::from_json(&json).is_ok());

        // validators on whatever was accepted
        macro_rules! validated {
            ($type:ty, $call:expr) => {
                feed(job, concat!(stringify!($type), "::validate"), input, || {
                    let call: fn(&$type, &PublicKey, u64) -> bool = $call;
                    <$type as AsJson>::from_json(&json).is_ok_and(|v| call(&v, &public, 1 << 63))
                });
            };
        }
        validated!(ConnectRequest, |v, key, _| v.validate(key).is_ok());
        validated!(DisconnectRequest, |v, _, _| v.validate().is_ok());
        validated!(AnnounceRequest, |v, _, _| v.validate().is_ok());
        validated!(LookupRequest, |v, _, _| v.validate().is_ok());
        validated!(SendRequest, |v, _, _| v.validate().is_ok());
        validated!(PollRequest, |v, _, _| v.validate().is_ok());
        validated!(ConnectResponse, |v, _, seed| v.validate(seed).is_ok());
        validated!(LookupResponse, |v, _, seed| v.validate(seed).is_ok());
        validated!(PollResponse, |v, _, seed| v.validate(seed).is_ok());
        validated!(InfoResponse, |v, _, _| v.validate().is_ok());
        validated!(ConnectionCertificate, |v, key, _| v.validate(key, key).is_ok());
        feed(job, "Message::read", input, || Message::from_json(&json).is_ok_and(|m| m.read(&secret, &public).is_ok()));
    }
}

// ---------------------------------------------------------------- servers

pub const POSTS: &[&str] = &["/api/v1/connect", "/api/v1/disconnect", "/api/v1/announce", "/api/v1/lookup", "/api/v1/send", "/api/v1/poll"];

/// A genuine request for an endpoint.
pub fn genuine(rng: &mut Rng, path: &str, secret: &SecretKey, server: &PublicKey) -> Json {
    let target = gen::secret(rng).public_key();
    let json = match path {
        "/api/v1/connect" => ConnectRequest::new(secret, server.clone(), gen::client_info(rng)).to_json(),
        "/api/v1/disconnect" => DisconnectRequest::new(secret).to_json(),
        "/api/v1/announce" => {
            if rng.bool() {
                let home = wire::server(rng);
                let client = gen::client_record(rng, secret, &home.public_key);
                AnnounceRequest::client(secret, client, home).to_json()
            } else {
                AnnounceRequest::server(secret, wire::server(rng)).to_json()
            }
        }
        "/api/v1/lookup" => LookupRequest::new(secret, target, gen::opt_client_type(rng)).to_json(),
        "/api/v1/send" => {
            let channel = if rng.bool() { gen::word(rng, 8) } else { gen::string(rng, 30) };
            SendRequest::new(secret, wire::sender(rng), target, channel, gen::raw_message(rng)).to_json()
        }
        _ => PollRequest::new(secret, gen::word(rng, 8), wire::opt_int(rng)).to_json(),
    };
    json.unwrap_or_default()
}

pub fn hostile_body(rng: &mut Rng, path: &str, server: &PublicKey) -> Vec<u8> {
    let secret = gen::secret(rng);
    let mut json = genuine(rng, path, &secret, server);
    match rng.below(10) {
        0 => return gen::content(rng, 3000),
        1 => json = random_json(rng, 4),
        2 => {
            let mut bytes = json.to_string().into_bytes();
            let n = rng.below(bytes.len() as u64) as usize;
            if rng.bool() { bytes.truncate(n) } else { bytes[n] ^= 1 << rng.below(8) }
            return bytes;
        }
        3 => {
            // deep nesting around and inside
            let depth = *rng.pick(&[10usize, 100, 127, 128, 1000, 100_000]);
            return [vec![b'['; depth], vec![b']'; depth]].concat();
        }
        _ => for _ in 0..rng.range(1, 3) { mutate(rng, &mut json) },
    }
    json.to_string().into_bytes()
}

fn endpoints_case(job: &mut Job) {
    let dir = job.ctx.fresh_dir("host");
    let mut rng = job.rng.fork();

    block_on(async {
        let net = Net::new();
        let secret = gen::secret(&mut rng);
        let host = Host::start(&net, "h", secret, dir.clone()).await;

        for _ in 0..60 {
            let path = *rng.pick(POSTS);
            let body = hostile_body(&mut rng, path, &host.public());
            job.ctx.observe(&(path, &body));
            job.ctx.count("hostile requests handled in memory", 1);
            match net.raw("h", "POST", path, Some(body.clone())).await {
                Reply::Text(200, text) => {
                    let ok = serde_json::from_str::<Json>(&text).is_ok_and(|json| json["standard"] == 1 && json["status"].is_u64());
                    job.check(ok, "the reply to a hostile request is no protocol response", || json!({ "path": path, "body": hex(&body), "reply": text }));
                }
                Reply::Text(..) => (),
                Reply::Fail => job.fail("no reply", json!({ "path": path, "body": hex(&body) })),
            }
        }

        // still serving others correctly
        if let Err(what) = probe(&mut rng, net.client(1), "h", &host.public()).await {
            job.fail("the server no longer serves others after hostile requests", json!({ "probe": what }));
        }
        job.ctx.count("liveness probes", 1);
    });
    let _ = std::fs::remove_dir_all(dir);
}

/// An honest client's session: info, connect, send to itself, poll, lists.
pub async fn probe<T: HttpClient>(rng: &mut Rng, http: T, host: &str, public: &PublicKey) -> Result<(), String> {
    let secret = gen::secret(rng);
    let client = ClientMiddleware::new(http, ClientDriver::thin(secret.clone()));
    let info = client.get_info(host).await.map_err(|e| format!("info: {e}"))?;
    if info.public_key != *public {
        return Err("info names another key".into());
    }
    let connected = client.connect(host).await.map_err(|e| format!("connect: {e}"))?;
    let clients = client.get_clients(host).await.map_err(|e| format!("clients: {e}"))?;
    if !clients.iter().any(|c| c.public_key == secret.public_key()) {
        return Err("the connected client is not listed".into());
    }
    client.get_servers(host).await.map_err(|e| format!("servers: {e}"))?;
    let data = gen::content(rng, 500);
    let message = Message::create(&secret, &secret.public_key(), &data, gen::encoding(rng), gen::level(rng)).map_err(|e| format!("message: {e}"))?;
    let channel = gen::word(rng, 12);
    connected.send(format!("http://{host}"), secret.public_key(), &channel, message.clone()).await.map_err(|e| format!("send: {e}"))?;
    let (messages, remaining) = connected.poll(&channel, None).await.map_err(|e| format!("poll: {e}"))?;
    if messages.len() != 1 || remaining != 0 || messages[0].message != message || messages[0].sender.client.public_key != secret.public_key() {
        return Err(format!("poll returned {messages:?}, {remaining} remaining"));
    }
    if messages[0].message.read(&secret, &secret.public_key()).ok().as_ref() != Some(&data) {
        return Err("the message is not readable".into());
    }
    connected.disconnect().await.map_err(|e| format!("disconnect: {e}"))?;
    Ok(())
}

fn http_case(job: &mut Job) {
    let dir = job.ctx.fresh_dir("http");
    let mut rng = job.rng.fork();
    let runtime = httpd::multi();

    runtime.block_on(async {
        let server = httpd::start(&dir, gen::secret(&mut rng)).await;
        let public = server.secret.public_key();

        for _ in 0..6 {
            let mut tasks = Vec::new();
            for i in 0..40 {
                let path = match rng.below(10) {
                    0 => "/api/v1/info",
                    1 => "/nowhere",
                    _ => *rng.pick(POSTS),
                };
                let mut body = hostile_body(&mut rng, path, &public);
                if i == 0 && rng.chance(30) {
                    // oversized
                    body = vec![b' '; 3 << 20];
                }
                let address = server.address;
                tasks.push((path, body.clone(), tokio::spawn(async move { httpd::raw_request(address, "POST", path, &body).await })));
            }
            for (path, body, task) in tasks {
                job.ctx.observe(&(path, &body));
                job.ctx.count("hostile requests handled over HTTP", 1);
                match task.await {
                    Ok(Ok(_)) => (),
                    Ok(Err(err)) => job.fail("the server does not answer a request", json!({ "path": path, "body": hex(&body), "error": err })),
                    Err(err) => job.ctx.error(format!("request task: {err}")),
                }
            }
            if let Err(what) = probe(&mut rng, ReqwestHttpClient::default(), &server.host(), &public).await {
                job.fail("the server no longer serves others after hostile requests", json!({ "probe": what }));
            }
            job.ctx.count("liveness probes", 1);
        }
    });
    let _ = std::fs::remove_dir_all(dir);
}

pub fn c07(ctx: &Ctx) {
    ctx.cases("bytes", ctx.scale(20_000, 400_000), bytes_case);
    ctx.cases("text", ctx.scale(20_000, 400_000), text_case);
    ctx.cases("json", ctx.scale(400, 10_000), json_case);
    ctx.cases("endpoints", ctx.scale(150, 3000), endpoints_case);
    ctx.cases_on(2, "http", ctx.scale(3, 60), http_case);

    ctx.require("hostile inputs parsed", 100_000);
    ctx.require("hostile inputs refused", 50_000);
    ctx.require("hostile requests handled over HTTP", 500);
    ctx.require("liveness probes", 10);
}

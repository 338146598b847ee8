//! C26: the HTTP layer. Real servers and clients of the library on the
//! loopback network; every handler invocation is recorded and reconciled with
//! the requests made and the replies received.

use std::collections::{BTreeMap, BTreeSet};
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::Duration;

use hyperborealib::http::client::Response as HttpResponse;
use hyperborealib::prelude::*;
use serde_json::{json, Value as Json};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpStream;

use crate::ctx::{Ctx, Job, PLANNED};
use crate::gen::{self, Rng};
use crate::httpd::{self, Running};

// ------------------------------------------------------------------ values

/// Any JSON value that serde_json itself writes and reads back unchanged
/// (it reads some fractions back with another last digit).
fn value(rng: &mut Rng, depth: u32) -> Json {
    stable(any_value(rng, depth))
}

fn stable(value: Json) -> Json {
    match serde_json::from_str::<Json>(&value.to_string()) {
        Ok(back) if back == value => value,
        _ => json!("a fraction"),
    }
}

fn any_value(rng: &mut Rng, depth: u32) -> Json {
    match rng.below(if depth == 0 { 8 } else { 11 }) {
        0 => Json::Null,
        1 => json!(rng.bool()),
        2 => json!(gen::int(rng)),
        3 => json!(match rng.below(4) { 0 => i64::MIN, 1 => -1, 2 => -(rng.below(1 << 62) as i64), _ => i64::MIN + rng.below(9) as i64 }),
        4 => {
            let float = f64::from_bits(rng.u64());
            let float = if float.is_finite() { float } else { 0.5 };
            let text = json!(float);
            match serde_json::from_str::<Json>(&text.to_string()) {
                Ok(back) if back == text => text,
                _ => json!(rng.below(1 << 40) as f64 / 8.0),
            }
        }
        5..=7 => json!(gen::string(rng, 60)),
        8 | 9 => Json::Array((0..rng.below(6)).map(|_| any_value(rng, depth - 1)).collect()),
        _ => Json::Object((0..rng.below(6)).map(|_| (gen::string(rng, 12), any_value(rng, depth - 1))).collect()),
    }
}

fn big(rng: &mut Rng) -> Json {
    match rng.below(5) {
        0 => json!("x".repeat(rng.range(60_000, 1_000_000) as usize)),
        1 => json!((0..rng.range(1_000, 30_000)).map(|i| i * 7).collect::<Vec<u64>>()),
        2 => (0..rng.range(50, 100)).fold(value(rng, 0), |inner, i| if i % 2 == 0 { json!([inner]) } else { json!({ "k": inner }) }),
        3 => json!(gen::string(rng, 30_000)),
        _ => Json::Object((0..rng.range(100, 2_000)).map(|i| (format!("{i}-{}", gen::string(rng, 5)), json!(i))).collect()),
    }
}

fn some_value(rng: &mut Rng) -> Json {
    if rng.chance(8) { stable(big(rng)) } else { value(rng, 4) }
}

/// The request and response type of the routes: a JSON value as it is.
/// Values with the key "refuse" are not of this type.
#[derive(Debug, Clone, PartialEq)]
struct Doc(Json);

impl AsJson for Doc {
    fn to_json(&self) -> Result<Json, AsJsonError> {
        if self.0.get("unwritable").is_some() {
            return Err(AsJsonError::InvalidStandard(99));
        }
        Ok(self.0.clone())
    }

    fn from_json(json: &Json) -> Result<Self, AsJsonError> {
        if json.get("refuse").is_some() {
            return Err(AsJsonError::FieldNotFound("accept"));
        }
        Ok(Self(json.clone()))
    }
}

// ----------------------------------------------------------------- servers

#[derive(Debug, Clone, PartialEq)]
struct Call {
    method: &'static str,
    path: String,
    from: SocketAddr,
    body: Option<Json>,
}

type Calls = Arc<Mutex<Vec<Call>>>;

/// How a handler answers: by what the request says ("answer", "delay",
/// "panic"), or with the request itself.
async fn answer(method: &'static str, path: String, from: SocketAddr, body: Option<Json>, calls: Calls) -> Doc {
    calls.lock().unwrap().push(Call { method, path: path.clone(), from, body: body.clone() });
    let Some(body) = body else {
        return Doc(json!({ "route": format!("{method} {path}"), "from": from.to_string(), "answer": path.chars().rev().collect::<String>() }));
    };
    if let Some(delay) = body.get("delay").and_then(Json::as_u64) {
        tokio::time::sleep(Duration::from_millis(delay)).await;
    }
    if let Some(times) = body.get("yield").and_then(Json::as_u64) {
        for _ in 0..times {
            tokio::task::yield_now().await;
        }
    }
    if body.get("panic").is_some() {
        panic!("{PLANNED}");
    }
    if body.get("spoil").is_some() {
        return Doc(json!({ "unwritable": true }));
    }
    match body.get("answer") {
        Some(answer) => Doc(json!({ "route": format!("{method} {path}"), "from": from.to_string(), "id": body.get("id"), "answer": answer })),
        None => Doc(body),
    }
}

async fn serve(routes: &[(&'static str, String)]) -> (Running, Calls) {
    let calls: Calls = Arc::default();
    let mut server = AxumHttpServer::default();
    for (method, path) in routes {
        let (route, log) = (path.clone(), calls.clone());
        match *method {
            "GET" => server.get(path, move |from| answer("GET", route, from, None, log)).await,
            _ => server.post(path, move |from, doc: Doc| answer("POST", route, from, Some(doc.0), log)).await,
        }
    }
    (httpd::start_routes(server).await, calls)
}

fn local() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime")
}

// --------------------------------------------------------------- transport

/// A request written by hand, on its own connection, in the given pieces.
/// Returns our own address and what came back.
async fn by_hand(server: SocketAddr, pieces: &[Vec<u8>], replies: usize) -> Result<(SocketAddr, Vec<(u16, Vec<u8>)>), String> {
    let work = async {
        let mut stream = TcpStream::connect(server).await.map_err(|e| e.to_string())?;
        let me = stream.local_addr().map_err(|e| e.to_string())?;
        for (i, piece) in pieces.iter().enumerate() {
            if i > 0 {
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
            // the server may have answered and closed
            if stream.write_all(piece).await.is_err() {
                break;
            }
        }
        let mut bytes = Vec::new();
        let mut out = Vec::new();
        let mut buffer = vec![0; 1 << 16];
        loop {
            while let Some((reply, used)) = one_reply(&bytes) {
                bytes.drain(..used);
                out.push(reply);
            }
            if out.len() >= replies {
                break;
            }
            match stream.read(&mut buffer).await {
                Ok(0) | Err(_) => break,
                Ok(n) => bytes.extend_from_slice(&buffer[..n]),
            }
        }
        Ok((me, out))
    };
    tokio::time::timeout(Duration::from_secs(60), work).await.map_err(|_| "no reply in 60 s".to_string())?
}

fn one_reply(bytes: &[u8]) -> Option<((u16, Vec<u8>), usize)> {
    let end = bytes.windows(4).position(|w| w == b"\r\n\r\n")?;
    let head = std::str::from_utf8(&bytes[..end]).ok()?;
    let status: u16 = head.split(' ').nth(1)?.parse().ok()?;
    let length: usize = head.split("\r\n").find_map(|line| {
        let (name, value) = line.split_once(':')?;
        name.eq_ignore_ascii_case("content-length").then(|| value.trim().parse().ok())?
    }).unwrap_or(0);
    if status == 100 {
        let (reply, used) = one_reply(&bytes[end + 4..])?;
        return Some((reply, used + end + 4));
    }
    let body = bytes.get(end + 4..end + 4 + length)?;
    Some(((status, body.to_vec()), end + 4 + length))
}

fn head(method: &str, path: &str, more: &str) -> String {
    format!("{method} {path} HTTP/1.1\r\nHost: localhost\r\nContent-Type: application/json\r\n{more}\r\n")
}

fn whole(method: &str, path: &str, body: &[u8]) -> Vec<u8> {
    let mut out = head(method, path, &format!("Content-Length: {}\r\n", body.len())).into_bytes();
    out.extend(body);
    out
}

// ------------------------------------------------------------------- cases

/// Values go both ways unchanged, through every interface of the client.
fn values(job: &mut Job) {
    let mut rng = job.rng.fork();
    let rng = &mut rng;
    let runtime = local();
    runtime.block_on(async {
        let routes = [("POST", "/echo".to_string()), ("POST", "/say".to_string()), ("GET", "/get".to_string())];
        let (running, calls) = serve(&routes).await;
        let base = format!("http://{}", running.address);
        let client = ReqwestHttpClient::default();

        for i in 0..25 {
            let (path, body, expected) = if rng.bool() {
                let body = some_value(rng);
                if ["refuse", "unwritable", "panic", "spoil", "answer", "delay", "yield"].iter().any(|key| body.get(key).is_some()) {
                    continue;
                }
                ("/echo", body.clone(), body)
            } else {
                let answer = some_value(rng);
                let answer = if answer.get("unwritable").is_some() { json!(1) } else { answer };
                let id = rng.u64();
                ("/say", json!({ "id": id, "answer": answer, "value": some_value(rng) }), json!({ "route": "POST /say", "id": id, "answer": answer }))
            };
            calls.lock().unwrap().clear();
            let way = rng.below(3);
            let got: Result<Json, String> = match way {
                0 => client.post(format!("{base}{path}"), body.clone()).await.map_err(|e| format!("{e:?}"))
                    .and_then(|HttpResponse { status, body }| if status == 200 { body.ok_or("no body".into()) } else { Err(format!("{status} {body:?}")) }),
                1 => client.post_request::<Doc, Doc>(format!("{base}{path}"), Doc(body.clone())).await.map(|doc| doc.0).map_err(|e| format!("{e:?}")),
                _ => by_hand(running.address, &[whole("POST", path, body.to_string().as_bytes())], 1).await
                    .and_then(|(_, replies)| match replies.first() {
                        Some((200, body)) => serde_json::from_slice(body).map_err(|e| e.to_string()),
                        other => Err(format!("{:?}", other.map(|(s, b)| (s, String::from_utf8_lossy(b).into_owned())))),
                    }),
            };
            let seen = calls.lock().unwrap().clone();
            let detail = |what: String| json!({ "path": path, "way": way, "sent": body, "expected": expected, "got": what, "calls": seen.len(), "step": i });
            let mut got = match got {
                Ok(got) => got,
                Err(err) => return job.fail("a value was not answered", detail(err)),
            };
            if path == "/say" {
                if let Some(object) = got.as_object_mut() {
                    object.remove("from");
                }
            }
            if got != expected {
                return job.fail("the reply is not the handler's value", detail(got.to_string()));
            }
            if seen.len() != 1 || seen[0].path != path || seen[0].method != "POST" || seen[0].body.as_ref() != Some(&body) {
                return job.fail("the handler was not given the value sent", detail(format!("{seen:?}")));
            }
            if !seen[0].from.ip().is_loopback() {
                return job.fail("the handler was given another caller's address", detail(seen[0].from.to_string()));
            }
            job.ctx.observe(&body.to_string());
            job.ctx.count("values carried", 1);
            job.ctx.count("bytes carried", body.to_string().len() as u64);
        }

        for _ in 0..3 {
            calls.lock().unwrap().clear();
            let got = if rng.bool() {
                client.get(format!("{base}/get")).await.map(|r| r.body.unwrap_or_default())
            } else {
                client.get_request::<Doc>(format!("{base}/get")).await.map(|doc| doc.0)
            };
            let seen = calls.lock().unwrap().clone();
            match got {
                Ok(got) if got["answer"] == "teg/" && seen.len() == 1 && seen[0].method == "GET" && got["from"] == seen[0].from.to_string() => job.ctx.count("values carried", 1),
                other => return job.fail("a GET was not answered by its handler", json!({ "got": format!("{other:?}"), "calls": format!("{seen:?}") })),
            }
        }
    });
}

fn segment(rng: &mut Rng) -> String {
    let text: String = (0..rng.range(1, 8)).map(|_| *rng.pick(b"abcdxyzABC019-_.~") as char).collect();
    // segments of dots only are taken away by every client
    if text.bytes().all(|byte| byte == b'.') { "dots".into() } else { text }
}

/// Each route's handler, and no other, runs for exactly its method and path.
fn routes(job: &mut Job) {
    let mut rng = job.rng.fork();
    let rng = &mut rng;
    let mut table: BTreeSet<(&'static str, String)> = BTreeSet::new();
    for _ in 0..rng.range(1, 15) {
        let mut path = String::new();
        // some share a beginning
        if rng.chance(40) {
            if let Some((_, other)) = table.iter().next() {
                path.clone_from(other);
            }
        }
        for _ in 0..rng.range(1, 3) {
            path.push('/');
            path.push_str(&segment(rng));
        }
        let path = path.replace("//", "/");
        match rng.below(3) {
            0 => { table.insert(("GET", path)); }
            1 => { table.insert(("POST", path)); }
            _ => { table.insert(("GET", path.clone())); table.insert(("POST", path)); }
        }
    }
    if rng.chance(30) {
        table.insert((*rng.pick(&["GET", "POST"]), "/".into()));
    }
    let mut order: Vec<(&'static str, String)> = table.iter().cloned().collect();
    rng.shuffle(&mut order);

    let runtime = local();
    runtime.block_on(async {
        let (running, calls) = serve(&order).await;
        let client = ReqwestHttpClient::default();

        let mut asked: Vec<(String, String)> = Vec::new();
        for (method, path) in &order {
            asked.push((method.to_string(), path.clone()));
            asked.push((method.to_string(), format!("{path}?a=b&c=%20/x")));
            for other in ["GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "PURGE"] {
                if rng.chance(40) {
                    asked.push((other.to_string(), path.clone()));
                }
            }
            let near = match rng.below(7) {
                0 => format!("{path}/"),
                1 => path.to_uppercase(),
                2 => path.to_lowercase(),
                3 => format!("{path}x"),
                4 => path[..path.len() - 1].to_string(),
                5 => format!("{path}/{}", segment(rng)),
                _ => format!("/{}{path}", segment(rng)),
            };
            if near.starts_with('/') {
                asked.push((method.to_string(), near));
            }
        }
        for (method, target) in asked {
            let path = target.split('?').next().unwrap_or_default().to_string();
            let id = rng.u64();
            let answer = value(rng, 2);
            let body = json!({ "id": id, "answer": answer, "value": value(rng, 2) });
            let route = order.iter().find(|(m, p)| *m == method && *p == path);
            calls.lock().unwrap().clear();
            // HTTP methods other than GET and POST only by hand
            let by_client = rng.bool() && (method == "GET" || method == "POST");
            let url = format!("http://{}{target}", running.address);
            let reply: Result<(Option<SocketAddr>, u16, Vec<u8>), String> = if by_client {
                let result = if method == "GET" { client.get(&url).await } else { client.post(&url, body.clone()).await };
                match result {
                    Ok(HttpResponse { status, body }) => Ok((None, status, body.unwrap_or_default().to_string().into_bytes())),
                    // no JSON in the reply: an error for the caller
                    Err(err) if route.is_none() => Ok((None, 404, format!("{err}").into_bytes())),
                    Err(err) => Err(format!("{err:?}")),
                }
            } else {
                let bytes = if method == "GET" { head("GET", &target, "").into_bytes() } else { whole(&method, &target, body.to_string().as_bytes()) };
                by_hand(running.address, &[bytes], 1).await.and_then(|(me, replies)| match replies.into_iter().next() {
                    Some((status, body)) => Ok((Some(me), status, body)),
                    None => Err("no reply".into()),
                })
            };
            let seen = calls.lock().unwrap().clone();
            let detail = |what: String| json!({ "routes": order, "asked": format!("{method} {target}"), "by client": by_client, "reply": what, "calls": format!("{seen:?}") });
            let (me, status, bytes) = match reply {
                Ok(reply) => reply,
                Err(err) => return job.fail("a request was not answered", detail(err)),
            };
            let text = String::from_utf8_lossy(&bytes).into_owned();
            match route {
                None => {
                    if !seen.is_empty() {
                        return job.fail("a handler ran for another method or path", detail(text));
                    }
                    if (200..300).contains(&status) {
                        return job.fail("an unknown route was answered with success", detail(text));
                    }
                    job.ctx.count("requests for no route", 1);
                }
                Some((method, path)) => {
                    let got: Json = serde_json::from_slice(&bytes).unwrap_or_default();
                    let expected = if *method == "GET" { json!(path.chars().rev().collect::<String>()) } else { answer.clone() };
                    if status != 200 || got["answer"] != expected || got["route"] != format!("{method} {path}") {
                        return job.fail("a route was answered with something else", detail(format!("{status} {text}")));
                    }
                    if seen.len() != 1 || seen[0].method != *method || seen[0].path != *path || (*method == "POST" && seen[0].body.as_ref() != Some(&body)) {
                        return job.fail("the handler of the route was not run once with the value", detail(text));
                    }
                    if me.is_some_and(|me| me != seen[0].from) {
                        return job.fail("the handler was given another caller's address", detail(text));
                    }
                    job.ctx.count("requests routed", 1);
                }
            }
            job.ctx.observe(&(order.len(), &method, &target));
        }
    });
}

/// What else may happen to a server meanwhile.
async fn disturb(server: SocketAddr, path: &str, mut rng: Rng, ctx: &Ctx) {
    let body = json!({ "id": "disturbance", "answer": value(&mut rng, 2), "delay": rng.below(20) }).to_string();
    let kind = rng.below(9);
    let name = ["hang up early", "hang up in the body", "hang up before the reply", "garbage", "panic", "no JSON", "wrong shape", "unwritable", "reset"][kind as usize];
    ctx.count(&format!("disturbances: {name}"), 1);
    let send = |bytes: Vec<u8>, wait: u64, reset: bool| async move {
        if let Ok(mut stream) = TcpStream::connect(server).await {
            let _ = stream.write_all(&bytes).await;
            tokio::time::sleep(Duration::from_millis(wait)).await;
            if reset {
                let _ = stream.set_zero_linger();
            }
        }
    };
    match kind {
        0 => {
            let bytes = whole("POST", path, body.as_bytes());
            let cut = rng.below(60) as usize;
            send(bytes[..cut].to_vec(), rng.below(5), false).await;
        }
        1 => {
            let bytes = whole("POST", path, body.as_bytes());
            let cut = bytes.len() - 1 - rng.below(body.len() as u64 - 1) as usize;
            send(bytes[..cut].to_vec(), rng.below(5), false).await;
        }
        2 => send(whole("POST", path, body.as_bytes()), rng.below(5), false).await,
        3 => {
            let garbage = rng.bytes(200);
            send(garbage, rng.below(5), false).await;
        }
        4 => { let _ = by_hand(server, &[whole("POST", path, br#"{"panic":1}"#)], 1).await; }
        5 => {
            let broken = &body.as_bytes()[..body.len() - 1];
            let _ = by_hand(server, &[whole("POST", path, broken)], 1).await;
        }
        6 => { let _ = by_hand(server, &[whole("POST", path, br#"{"refuse":1}"#)], 1).await; }
        7 => { let _ = by_hand(server, &[whole("POST", path, br#"{"spoil":1}"#)], 1).await; }
        _ => send(whole("POST", path, body.as_bytes()), rng.below(5), true).await,
    }
}

/// Many requests at once, among disturbances.
fn concurrent(job: &mut Job) {
    let mut rng = job.rng.fork();
    let rng = &mut rng;
    let runtime = if rng.chance(70) { httpd::multi() } else { local() };
    let ctx = job.ctx;
    let paths: Vec<String> = (0..4).map(|i| format!("/p{i}")).collect();
    runtime.block_on(async {
        let (running, calls) = serve(&paths.iter().map(|p| ("POST", p.clone())).collect::<Vec<_>>()).await;
        let address = running.address;
        let client = ReqwestHttpClient::default();
        let mut work: Vec<(String, Json, String, bool)> = Vec::new();
        for i in 0..rng.range(20, 80) {
            let path = rng.pick(&paths).clone();
            let answer = if rng.chance(3) { big(rng) } else { value(rng, 3) };
            let answer = if answer.get("unwritable").is_some() { json!(2) } else { answer };
            let body = json!({ "id": i, "answer": answer, "value": value(rng, 3), "delay": rng.below(4) * rng.below(8), "yield": rng.below(10) });
            work.push((path.clone(), body, format!("POST {path}"), rng.chance(75)));
        }
        let shared = rng.bool();
        let results: Mutex<Vec<Option<Result<(Option<SocketAddr>, u16, Json), String>>>> = Mutex::new(vec![None; work.len()]);
        let mut futures: Vec<std::pin::Pin<Box<dyn std::future::Future<Output = ()> + '_>>> = Vec::new();
        for (i, (path, body, _, by_client)) in work.iter().enumerate() {
            let client = if shared { client.clone() } else if *by_client && i % 8 == 0 { ReqwestHttpClient::default() } else { client.clone() };
            let results = &results;
            let wait = rng.below(15);
            futures.push(Box::pin(async move {
                tokio::time::sleep(Duration::from_millis(wait)).await;
                let result = if *by_client {
                    match client.post(format!("http://{address}{path}"), body.clone()).await {
                        Ok(HttpResponse { status, body }) => Ok((None, status, body.unwrap_or_default())),
                        Err(err) => Err(format!("{err:?}")),
                    }
                } else {
                    by_hand(address, &[whole("POST", path, body.to_string().as_bytes())], 1).await.and_then(|(me, replies)| match replies.first() {
                        Some((status, bytes)) => Ok((Some(me), *status, serde_json::from_slice(bytes).map_err(|e| e.to_string())?)),
                        None => Err("no reply".into()),
                    })
                };
                results.lock().unwrap()[i] = Some(result);
            }));
        }
        for _ in 0..rng.below(25) {
            let path = rng.pick(&paths).clone();
            let rng = rng.fork();
            futures.push(Box::pin(async move { disturb(address, &path, rng, ctx).await }));
        }
        crate::ctx::join_all(futures).await;

        let seen = calls.lock().unwrap().clone();
        let mut by_id: BTreeMap<u64, Vec<&Call>> = BTreeMap::new();
        for call in &seen {
            if let Some(id) = call.body.as_ref().and_then(|b| b["id"].as_u64()) {
                by_id.entry(id).or_default().push(call);
            }
            if call.body.as_ref().is_some_and(|b| b.get("refuse").is_some()) {
                return job.fail("a handler ran for a value that is not a request", json!(format!("{call:?}")));
            }
        }
        for (i, ((path, body, route, by_client), result)) in work.iter().zip(results.into_inner().unwrap()).enumerate() {
            let calls = by_id.remove(&(i as u64)).unwrap_or_default();
            let detail = |what: &str| json!({ "request": body, "route": route, "by client": by_client, "reply": what, "calls": format!("{calls:?}"), "concurrent": work.len() });
            let (me, status, reply) = match result {
                Some(Ok(result)) => result,
                other => return job.fail("a request was not answered", detail(&format!("{other:?}"))),
            };
            if status != 200 || reply["answer"] != body["answer"] || reply["id"] != body["id"] || reply["route"] != **route {
                return job.fail("a caller was answered with something else than its handler's value", detail(&format!("{status} {reply}")));
            }
            let [call] = calls.as_slice() else {
                return job.fail("a request did not run its handler once", detail(&reply.to_string()));
            };
            if call.path != *path || call.body.as_ref() != Some(body) || reply["from"] != call.from.to_string() || me.is_some_and(|me| me != call.from) {
                return job.fail("a handler was given another request's value or caller", detail(&reply.to_string()));
            }
            job.ctx.observe(&(job.index, i));
            job.ctx.count("concurrent requests", 1);
        }
        if !by_id.is_empty() {
            return job.fail("a handler ran without a request", json!(format!("{by_id:?}")));
        }
    });
    runtime.shutdown_timeout(Duration::from_secs(10));
}

/// Bodies that are no request do not reach the handler, and what follows on
/// the same connection still works.
fn invalid(job: &mut Job) {
    let mut rng = job.rng.fork();
    let rng = &mut rng;
    let runtime = local();
    runtime.block_on(async {
        let (running, calls) = serve(&[("POST", "/p".to_string())]).await;
        for _ in 0..25 {
            let good = json!({ "id": rng.u64(), "answer": value(rng, 2) });
            let text = good.to_string();
            let (kind, bad): (&str, Vec<u8>) = match rng.below(10) {
                0 => ("empty", Vec::new()),
                1 => ("cut", text.as_bytes()[..text.len() - 1].to_vec()),
                2 => ("followed by more", format!("{text} x").into_bytes()),
                3 => ("two values", format!("{text}{text}").into_bytes()),
                4 => ("not UTF-8", [b"{\"id\":\"".as_slice(), &[0xff, 0xfe], b"\"}"].concat()),
                5 => ("wrong shape", json!({ "refuse": good }).to_string().into_bytes()),
                6 => ("single quotes", b"{'id':1}".to_vec()),
                7 => ("too deep", [vec![b'['; 100_000], vec![b']'; 100_000]].concat()),
                8 => ("number out of range", b"{\"id\":1e999999}".to_vec()),
                _ => ("random", { let mut bytes = rng.bytes(30); bytes[0] = 0; bytes }),
            };
            calls.lock().unwrap().clear();
            let mut bytes = whole("POST", "/p", &bad);
            bytes.extend(whole("POST", "/p", text.as_bytes()));
            let replies = match by_hand(running.address, &[bytes], 2).await {
                Ok((_, replies)) => replies,
                Err(err) => return job.fail("a server does not answer", json!({ "sent": kind, "error": err })),
            };
            let seen = calls.lock().unwrap().clone();
            let shown: Vec<_> = replies.iter().map(|(s, b)| format!("{s} {}", String::from_utf8_lossy(b))).collect();
            let detail = || json!({ "body": String::from_utf8_lossy(&bad), "kind": kind, "replies": shown, "calls": format!("{seen:?}") });
            if replies.is_empty() || replies[0].0 < 400 {
                return job.fail("an invalid body was not refused", detail());
            }
            if seen.iter().any(|call| call.body.as_ref() != Some(&good)) || seen.len() > 1 {
                return job.fail("a handler ran for an invalid body", detail());
            }
            // the next request, here or on a new connection
            let next = match replies.get(1) {
                Some(next) => Some(next.clone()),
                None => by_hand(running.address, &[whole("POST", "/p", text.as_bytes())], 1).await.ok().and_then(|(_, r)| r.into_iter().next()),
            };
            let got: Json = next.as_ref().and_then(|(_, body)| serde_json::from_slice(body).ok()).unwrap_or_default();
            if next.as_ref().map(|n| n.0) != Some(200) || got["answer"] != good["answer"] || got["id"] != good["id"] {
                return job.fail("the request after an invalid one was not answered", detail());
            }
            job.ctx.count(&format!("invalid bodies: {kind}"), 1);
            job.ctx.observe(&(kind, &bad, &text));
        }
    });
}

/// The same request in other shapes of HTTP: pieces, chunks, pipelines.
fn wire(job: &mut Job) {
    let mut rng = job.rng.fork();
    let rng = &mut rng;
    let runtime = local();
    runtime.block_on(async {
        let (running, calls) = serve(&[("POST", "/p".to_string()), ("GET", "/g".to_string()), ("POST", "/q".to_string())]).await;
        for _ in 0..12 {
            let n = if rng.bool() { 1 } else { rng.range(2, 6) as usize };
            let mut bodies = Vec::new();
            let mut bytes = Vec::new();
            for i in 0..n {
                let body = json!({ "id": i, "answer": value(rng, 3), "value": if rng.chance(10) { big(rng) } else { value(rng, 3) }, "delay": rng.below(3) });
                let path = *rng.pick(&["/p", "/q"]);
                let text = body.to_string();
                match rng.below(3) {
                    0 => bytes.extend(whole("POST", path, text.as_bytes())),
                    1 => {
                        bytes.extend(head("POST", path, "Transfer-Encoding: chunked\r\n").into_bytes());
                        let mut rest = text.as_bytes();
                        while !rest.is_empty() {
                            let piece = (1 + rng.below(rest.len() as u64).min(rng.range(1, 3000))) as usize;
                            let piece = piece.min(rest.len());
                            bytes.extend(format!("{piece:x}\r\n").bytes());
                            bytes.extend(&rest[..piece]);
                            bytes.extend(b"\r\n");
                            rest = &rest[piece..];
                        }
                        bytes.extend(b"0\r\n\r\n");
                    }
                    _ => {
                        bytes.extend(head("POST", path, &format!("content-length:   {}\r\nX-Forwarded-For: 1.2.3.4\r\nX-Real-IP: 1.2.3.4\r\nX-HTTP-Method-Override: GET\r\nX-Original-URL: /g\r\n", text.len())).into_bytes());
                        bytes.extend(text.as_bytes());
                    }
                }
                bodies.push((path, body));
            }
            let mut pieces = Vec::new();
            let mut rest = bytes.as_slice();
            let cuts = if rng.bool() { 0 } else { rng.below(6) };
            for _ in 0..cuts {
                let at = rng.below(rest.len() as u64) as usize;
                pieces.push(rest[..at].to_vec());
                rest = &rest[at..];
            }
            pieces.push(rest.to_vec());
            calls.lock().unwrap().clear();
            let (me, replies) = match by_hand(running.address, &pieces, n).await {
                Ok(result) => result,
                Err(err) => return job.fail("a server does not answer", json!({ "error": err, "requests": n })),
            };
            let seen = calls.lock().unwrap().clone();
            let detail = |i: usize| json!({ "request": bodies.get(i), "number": i, "of": n, "pieces": pieces.len(), "replies": replies.len(), "reply": replies.get(i).map(|(s, b)| format!("{s} {}", String::from_utf8_lossy(b))), "calls": seen.len() });
            if seen.len() != n || replies.len() != n {
                return job.fail("not every request of a connection ran its handler once", detail(0));
            }
            for (i, (path, body)) in bodies.iter().enumerate() {
                let got: Json = serde_json::from_slice(&replies[i].1).unwrap_or_default();
                if replies[i].0 != 200 || got["id"] != body["id"] || got["answer"] != body["answer"] || got["route"] != format!("POST {path}") {
                    return job.fail("a request was answered with something else", detail(i));
                }
                if seen[i].body.as_ref() != Some(body) || seen[i].path != *path || seen[i].from != me {
                    return job.fail("a handler was given something else than was sent", detail(i));
                }
                job.ctx.observe(&(job.index, i, body.to_string()));
            }
            job.ctx.count("hand-written requests", n as u64);
        }
    });
}

/// Replies of foreign servers: the client gives back exactly the value and
/// status they carry, or an error.
fn foreign(job: &mut Job) {
    let mut rng = job.rng.fork();
    let rng = &mut rng;
    let runtime = local();
    runtime.block_on(async {
        let listener = tokio::net::TcpListener::bind(("127.0.0.1", 0)).await.expect("loopback");
        let address = listener.local_addr().expect("address");
        let plan: Arc<Mutex<Vec<Vec<u8>>>> = Arc::default();
        let got: Arc<Mutex<Vec<u8>>> = Arc::default();
        let requests: Arc<Mutex<u64>> = Arc::default();
        let (script, heard, heard_times) = (plan.clone(), got.clone(), requests.clone());
        tokio::spawn(async move {
            while let Ok((mut stream, _)) = listener.accept().await {
                // one request: headers, then as many bytes as they announce
                let mut bytes = Vec::new();
                let mut buffer = vec![0; 1 << 16];
                let mut whole = false;
                loop {
                    let done = bytes.windows(4).position(|w| w == b"\r\n\r\n").is_some_and(|end| {
                        let head = String::from_utf8_lossy(&bytes[..end]).to_ascii_lowercase();
                        let length = head.split("content-length: ").nth(1).and_then(|v| v.split("\r\n").next()).and_then(|v| v.parse().ok()).unwrap_or(0usize);
                        bytes.len() >= end + 4 + length
                    });
                    if done {
                        whole = true;
                        break;
                    }
                    match stream.read(&mut buffer).await {
                        Ok(0) | Err(_) => break,
                        Ok(n) => bytes.extend_from_slice(&buffer[..n]),
                    }
                }
                // a connection the client opened and did not need
                if !whole {
                    continue;
                }
                *heard.lock().unwrap() = bytes;
                *heard_times.lock().unwrap() += 1;
                let pieces = script.lock().unwrap().clone();
                for piece in pieces {
                    let _ = stream.write_all(&piece).await;
                    tokio::time::sleep(Duration::from_millis(1)).await;
                }
                let _ = stream.shutdown().await;
            }
        });

        let client = ReqwestHttpClient::default();
        for _ in 0..15 {
            let value = some_value(rng);
            let text = value.to_string();
            let status = *rng.pick(&[200u16, 200, 200, 201, 400, 403, 404, 418, 500, 503]);
            let kind = *rng.pick(&["application/json", "text/json", "text/plain", "application/octet-stream"]);
            let close = "Connection: close\r\n";
            let (fault, mut bytes, whole): (&str, Vec<u8>, bool) = match rng.below(10) {
                0 => ("short body", format!("HTTP/1.1 {status} X\r\n{close}Content-Type: {kind}\r\nContent-Length: {}\r\n\r\n{text}", text.len() + 1).into_bytes(), false),
                1 => ("no JSON", format!("HTTP/1.1 {status} X\r\n{close}Content-Length: {}\r\n\r\n{text}x", text.len() + 1).into_bytes(), false),
                2 => ("chunks cut", format!("HTTP/1.1 {status} X\r\n{close}Transfer-Encoding: chunked\r\n\r\n{:x}\r\n{text}\r\n", text.len()).into_bytes(), false),
                3 => ("nothing", Vec::new(), false),
                4 => ("garbage", rng.bytes(60), false),
                5 => ("chunked", {
                    let mut out = format!("HTTP/1.1 {status} X\r\n{close}Content-Type: {kind}\r\nTransfer-Encoding: chunked\r\n\r\n").into_bytes();
                    for piece in text.as_bytes().chunks(1 + rng.below(5_000) as usize) {
                        out.extend(format!("{:X}\r\n", piece.len()).bytes());
                        out.extend(piece);
                        out.extend(b"\r\n");
                    }
                    out.extend(b"0\r\n\r\n");
                    out
                }, true),
                6 => ("until the end", format!("HTTP/1.1 {status} X\r\n{close}Content-Type: {kind}\r\n\r\n{text}").into_bytes(), true),
                _ => ("plain", format!("HTTP/1.1 {status} X\r\n{close}Content-Type: {kind}\r\nContent-Length: {}\r\n\r\n{text}", text.len()).into_bytes(), true),
            };
            let mut pieces = Vec::new();
            for _ in 0..rng.below(4) {
                let at = rng.below(bytes.len() as u64 + 1) as usize;
                let rest = bytes.split_off(at);
                pieces.push(std::mem::replace(&mut bytes, rest));
            }
            pieces.push(bytes);
            *plan.lock().unwrap() = pieces;
            *requests.lock().unwrap() = 0;
            let sent = some_value(rng);
            let url = format!("http://{address}/some/path");
            let posted = rng.bool();
            // the typed calls know no status
            let typed = rng.bool() && value.get("refuse").is_none() && sent.get("unwritable").is_none();
            let result = match (posted, typed) {
                (true, false) => client.post(&url, sent.clone()).await,
                (false, false) => client.get(&url).await,
                (true, true) => client.post_request::<Doc, Doc>(&url, Doc(sent.clone())).await.map(|doc| HttpResponse { status, body: Some(doc.0) }),
                (false, true) => client.get_request::<Doc>(&url).await.map(|doc| HttpResponse { status, body: Some(doc.0) }),
            };
            let heard = got.lock().unwrap().clone();
            let detail = |what: String| json!({ "fault": fault, "status": status, "value": value, "got": what, "request": String::from_utf8_lossy(&heard) });
            match result {
                Ok(HttpResponse { status: code, body }) => {
                    if !whole {
                        return job.fail("a broken reply was taken for a value", detail(format!("{code} {body:?}")));
                    }
                    if code != status || body.as_ref() != Some(&value) {
                        return job.fail("the client gave back another value or status", detail(format!("{code} {body:?}")));
                    }
                }
                Err(err) if whole => return job.fail("a whole reply was refused", detail(format!("{err:?}"))),
                Err(_) => (),
            }
            let times = *requests.lock().unwrap();
            if times != 1 {
                return job.fail("one call of the client is not one request", detail(format!("{times} requests")));
            }
            // what the client put on the wire
            if fault != "nothing" {
                let end = heard.windows(4).position(|w| w == b"\r\n\r\n").unwrap_or(0);
                let head = String::from_utf8_lossy(&heard[..end]).into_owned();
                let line = head.lines().next().unwrap_or_default();
                let method = if posted { "POST" } else { "GET" };
                if line != format!("{method} /some/path HTTP/1.1") {
                    return job.fail("the client asked for something else", detail(line.into()));
                }
                if posted && serde_json::from_slice::<Json>(&heard[end + 4..]).ok().as_ref() != Some(&sent) {
                    return job.fail("the client sent another value", detail(sent.to_string()));
                }
            }
            job.ctx.count(&format!("foreign replies: {fault}"), 1);
            job.ctx.observe(&(fault, status, &text, posted));
        }
    });
}

pub fn c26(ctx: &Ctx) {
    ctx.cases("values", ctx.scale(100, 3_000), values);
    ctx.cases("routes", ctx.scale(50, 1_500), routes);
    ctx.cases("concurrent", ctx.scale(50, 1_500), concurrent);
    ctx.cases("invalid", ctx.scale(50, 1_000), invalid);
    ctx.cases("wire", ctx.scale(50, 1_500), wire);
    ctx.cases("foreign", ctx.scale(50, 1_500), foreign);
    ctx.require("values carried", 2_000);
    ctx.require("requests routed", 500);
    ctx.require("requests for no route", 500);
    ctx.require("concurrent requests", 1_500);
    ctx.require("hand-written requests", 1_000);
    ctx.require("disturbances: panic", 20);
    ctx.require("disturbances: hang up in the body", 20);
}

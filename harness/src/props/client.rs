//! C10, C28: what a client sends, and which answers it believes. The real
//! client middleware over a recording transport whose answers are made here,
//! without the library.

use std::collections::VecDeque;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

use hyperborealib::prelude::*;
use hyperborealib::rest_api::types::{Client as ClientRecord, Server as ServerRecord};
use serde_json::{json, Value as Json};

use crate::ctx::{block_on, Ctx, Job};
use crate::gen::{self, Rng};
use crate::net::{Exchange, MemClient, Net, Reply};
use crate::props::server::{proven, seed, Party};
use crate::refimpl as r;

pub type Connected = ConnectedClientMiddleware<MemClient>;

/// What an operation gave back.
#[derive(Debug, Clone, PartialEq)]
pub enum Outcome {
    Ok(Json),
    /// the server's own error
    Failed(u64, String),
    Err(String),
}

fn failure(err: MiddlewareError) -> Outcome {
    match err {
        MiddlewareError::RequestFailed { status, reason } => Outcome::Failed(status.to_code(), reason),
        other => Outcome::Err(format!("{other:?}")),
    }
}

fn outcome<T>(result: Result<T, MiddlewareError>, show: impl FnOnce(T) -> Json) -> Outcome {
    match result {
        Ok(value) => Outcome::Ok(show(value)),
        Err(err) => failure(err),
    }
}

// the records as the standard writes them, without the library's to_json

fn key(key: &PublicKey) -> String {
    r::b64(&key.to_bytes())
}

pub fn show_server(server: &ServerRecord) -> Json {
    json!({ "public_key": key(&server.public_key), "address": server.address })
}

fn show_certificate(certificate: &ConnectionCertificate) -> Json {
    let mut token = certificate.token.auth_date.to_be_bytes().to_vec();
    token.extend(certificate.token.public_key.to_bytes());
    json!({ "token": r::b64(&token), "sign": r::b64(&certificate.sign) })
}

fn show_type(kind: ClientType) -> &'static str {
    match kind {
        ClientType::Thin => "thin",
        ClientType::Thick => "thick",
        ClientType::Server => "server",
        ClientType::File => "file",
    }
}

fn show_info(info: &ClientInfo) -> Json {
    json!({ "type": show_type(info.client_type), "address": info.address })
}

pub fn show_client(client: &ClientRecord) -> Json {
    json!({ "public_key": key(&client.public_key), "certificate": show_certificate(&client.certificate), "client": show_info(&client.info) })
}

fn show_message(info: &MessageInfo) -> Json {
    json!({
        "sender": { "client": show_client(&info.sender.client), "server": show_server(&info.sender.server) },
        "channel": info.channel,
        "message": { "content": info.message.content, "sign": info.message.sign, "encoding": info.message.encoding.to_string() },
        "received_at": info.received_at,
    })
}

fn show_found(found: Option<(ClientRecord, ServerRecord, bool)>) -> Json {
    match found {
        None => Json::Null,
        Some((client, server, available)) => json!({ "client": show_client(&client), "server": show_server(&server), "available": available }),
    }
}

fn show_connected(client: &Connected) -> Json {
    json!({
        "server": show_server(client.connected_server()),
        "certificate": show_certificate(client.connection_certificate()),
        "client": show_client(&client.get_client()),
        "driver": show_driver(client.driver_ref()),
    })
}

fn show_driver(driver: &ClientDriver) -> Json {
    json!({ "public_key": key(&driver.secret_key().public_key()), "info": show_info(driver.info()) })
}

pub async fn do_lookup(client: &Connected, key: PublicKey, kind: Option<ClientType>) -> Outcome {
    outcome(client.lookup(key, kind).await, show_found)
}

// ------------------------------------------------------------- operations

#[derive(Debug, Clone)]
pub enum Op {
    Info(String),
    Clients(String),
    Servers(String),
    Connect(String),
    /// address, expected server
    ConnectTo(String, usize),
    Disconnect,
    Announce(String),
    Lookup([u8; 33], Option<ClientType>),
    Send { uri: String, receiver: [u8; 33], channel: String, message: Message },
    Poll(String, Option<u64>),
}

impl Op {
    pub fn name(&self) -> &'static str {
        match self {
            Op::Info(_) => "info",
            Op::Clients(_) => "clients",
            Op::Servers(_) => "servers",
            Op::Connect(_) => "connect",
            Op::ConnectTo(..) => "connect_to",
            Op::Disconnect => "disconnect",
            Op::Announce(_) => "announce",
            Op::Lookup(..) => "lookup",
            Op::Send { .. } => "send",
            Op::Poll(..) => "poll",
        }
    }
}

fn public(bytes: &[u8; 33]) -> PublicKey {
    PublicKey::from(k256::PublicKey::from_sec1_bytes(bytes).expect("point"))
}

type Answer = Box<dyn FnMut(&Exchange) -> Reply + Send>;

/// One client and the servers it may talk to.
struct Session {
    net: Net,
    me: Party,
    info: ClientInfo,
    client: ClientMiddleware<MemClient>,
    connected: Option<Connected>,
    servers: Vec<Party>,
    answer: Arc<Mutex<Option<Answer>>>,
}

impl Session {
    fn new(rng: &mut Rng) -> Self {
        let net = Net::new();
        let me = Party::new(rng);
        let servers: Vec<Party> = (0..3).map(|_| Party::new(rng)).collect();
        let answer: Arc<Mutex<Option<Answer>>> = Arc::default();
        let hook = answer.clone();
        net.before(move |exchange| Some(match hook.lock().unwrap().as_mut() {
            Some(answer) => answer(exchange),
            None => Reply::Fail,
        }));
        let (info, driver) = match rng.below(4) {
            0 => (ClientInfo { client_type: ClientType::Thin, address: None }, ClientDriver::thin(me.secret.clone())),
            1 => {
                let address = gen::word(rng, 20);
                let params = ServerParams { secret_key: me.secret.clone(), address: address.clone() };
                let server = ServerDriver::new(NoRouter, BfsRecursionTraversal, NoInbox, params);
                (ClientInfo { client_type: ClientType::Server, address: Some(address) }, server.as_client())
            }
            _ => {
                let info = gen::client_info(rng);
                (info.clone(), ClientDriver::new(info, me.secret.clone()))
            }
        };
        let client = ClientMiddleware::new(net.client(1), driver);
        Self { net, me, info, client, connected: None, servers, answer }
    }

    fn answer(&self, answer: impl FnMut(&Exchange) -> Reply + Send + 'static) {
        *self.answer.lock().unwrap() = Some(Box::new(answer));
    }

    /// Connect with an honest server.
    async fn connect(&mut self, server: usize, address: &str) -> Result<(), Outcome> {
        let party = self.servers[server].clone();
        let key = party.key.clone();
        self.answer(move |e| honest(&party, e, json!({})));
        let client = self.client.connect_to(address, key).await.map_err(failure)?;
        self.connected = Some(client);
        self.net.take_log();
        Ok(())
    }

    async fn run(&mut self, op: &Op) -> Outcome {
        match op.clone() {
            Op::Info(address) => outcome(self.client.get_info(address).await, |info| json!({
                "standard": info.standard, "public_key": key(&info.public_key), "seed": info.proof_seed, "sign": r::b64(&info.proof_sign),
            })),
            Op::Clients(address) => outcome(self.client.get_clients(address).await, |list| json!(list.iter().map(show_client).collect::<Vec<_>>())),
            Op::Servers(address) => outcome(self.client.get_servers(address).await, |list| json!(list.iter().map(show_server).collect::<Vec<_>>())),
            Op::Connect(address) => match self.client.connect(address).await {
                Ok(client) => {
                    let shown = show_connected(&client);
                    self.connected = Some(client);
                    Outcome::Ok(shown)
                }
                Err(err) => failure(err),
            },
            Op::ConnectTo(address, server) => match self.client.connect_to(address, self.servers[server].key.clone()).await {
                Ok(client) => {
                    let shown = show_connected(&client);
                    self.connected = Some(client);
                    Outcome::Ok(shown)
                }
                Err(err) => failure(err),
            },
            Op::Disconnect => match self.connected.clone().expect("connected").disconnect().await {
                Ok(client) => {
                    self.connected = None;
                    let shown = show_driver(client.driver_ref());
                    self.client = client;
                    Outcome::Ok(shown)
                }
                Err(err) => failure(err),
            },
            other => operate(self.connected.as_ref().expect("connected"), &other).await,
        }
    }
}

async fn operate(client: &Connected, op: &Op) -> Outcome {
    match op.clone() {
        Op::Announce(uri) => outcome(client.announce(uri).await, |()| json!(true)),
        Op::Lookup(key, kind) => do_lookup(client, public(&key), kind).await,
        Op::Send { uri, receiver, channel, message } =>
            outcome(client.send(uri, public(&receiver), channel, message).await, |()| json!(true)),
        Op::Poll(channel, limit) => outcome(client.poll(channel, limit).await, |(messages, remaining)| json!({
            "messages": messages.iter().map(show_message).collect::<Vec<_>>(), "remaining": remaining,
        })),
        _ => unreachable!("not an operation of a connected client"),
    }
}

/// The server's own proven answer to this very request.
pub fn honest(server: &Party, exchange: &Exchange, body: Json) -> Reply {
    let seed = exchange.request.as_ref().and_then(|json| json["proof"]["seed"].as_u64()).unwrap_or(0);
    Reply::json(&r::success_json(&server.raw, seed, body))
}

fn info_json(server: &Party, seed: u64) -> Json {
    json!({
        "standard": 1,
        "server": { "public_key": server.b64 },
        "proof": { "seed": seed, "sign": r::b64(&r::sign(&server.raw, &seed.to_be_bytes())) },
    })
}

fn host(rng: &mut Rng) -> String {
    match rng.below(8) {
        0 => format!("127.0.0.1:{}", rng.below(65536)),
        1 => format!("[::1]:{}", rng.below(65536)),
        2 => format!("{}.example.org/base", gen::word(rng, 8)),
        3 => format!("{}.example.org:{}", gen::word(rng, 8), rng.below(65536)),
        4 => format!("пример-{}.рф", gen::word(rng, 4)),
        _ => format!("{}.{}", gen::word(rng, 12), gen::word(rng, 3)),
    }
}

fn client_json(rng: &mut Rng) -> Json {
    let client = Party::new(rng);
    let server = Party::new(rng);
    let info = crate::props::server::info_of(rng);
    r::client_json(&client.raw, gen::auth_date(rng), &server.public, &info)
}

fn server_json(rng: &mut Rng) -> Json {
    let server = Party::new(rng);
    r::server_json(&server.public, &gen::string(rng, 30))
}

fn message_info_json(rng: &mut Rng) -> Json {
    let message = gen::raw_message(rng);
    json!({
        "sender": { "client": client_json(rng), "server": server_json(rng) },
        "channel": gen::string(rng, 20),
        "message": { "content": message.content, "sign": message.sign, "encoding": message.encoding.to_string() },
        "received_at": gen::int(rng),
    })
}

fn list(rng: &mut Rng, mut make: impl FnMut(&mut Rng) -> Json) -> Vec<Json> {
    let n = match rng.below(6) {
        0 => 0,
        1 | 2 => 1,
        3 | 4 => rng.range(2, 5),
        _ => rng.range(6, 20),
    };
    (0..n).map(|_| make(rng)).collect()
}

fn limit(rng: &mut Rng) -> Option<u64> {
    match rng.below(6) {
        0 | 1 => None,
        2 => Some(0),
        3 => Some(1),
        4 => Some(rng.below(100)),
        _ => Some(gen::int(rng)),
    }
}

fn channel(rng: &mut Rng) -> String {
    gen::string(rng, 40)
}

/// Is this reply a proven success for `seed`? (the key it names)
fn believable(reply: &Reply, wanted: u64) -> Option<String> {
    let json = reply.value()?;
    if json["status"] != 100 || json["standard"] != 1 {
        return None;
    }
    let name = json["public_key"].as_str()?;
    let public: [u8; 33] = r::unb64(name)?.try_into().ok()?;
    let sign = json["proof"]["sign"].as_str().and_then(r::unb64)?;
    (wanted >= 1 << 63 && r::verify(&public, &wanted.to_be_bytes(), &sign)).then(|| name.to_string())
}

// ------------------------------------------------------------------- C10

const TAMPERINGS: &[&str] = &[
    "none", "sign bit flipped", "replayed answer", "answer to another operation", "attacker in its own name", "attacker in the server's name",
    "attacker's name on the server's sign", "another seed signed", "seed without top bit signed", "little endian seed signed", "decimal seed signed",
    "body signed", "no proof", "no sign", "no key", "empty sign", "truncated sign", "extended sign", "another standard", "no standard",
    "error status with a success body", "error answer", "error answer with proof", "unknown status", "garbage", "no connection", "array",
    "the client's own proof", "another server", "half the seed signed", "sign of zeros", "no body", "client key inside", "empty object",
    "another client's answer", "success status, error shape", "status of another type", "sign halves swapped", "http error with valid answer",
];

struct Tamper<'a> {
    kind: &'static str,
    server: &'a Party,
    attacker: &'a Party,
    me: &'a Party,
    history: &'a [Reply],
}

fn tamper(rng: &mut Rng, t: &Tamper, exchange: &Exchange, body: &Json) -> Reply {
    let request = exchange.request.clone().unwrap_or(Json::Null);
    let seed_of = request["proof"]["seed"].as_u64().unwrap_or(0);
    let server = t.server;
    let mut reply = r::success_json(&server.raw, seed_of, body.clone());
    let sign = reply["proof"]["sign"].as_str().and_then(r::unb64).unwrap_or_default();
    let set = |reply: &mut Json, sign: Vec<u8>| reply["proof"]["sign"] = json!(r::b64(&sign));
    match t.kind {
        "none" => (),
        "sign bit flipped" => {
            let mut sign = sign;
            let i = rng.below(sign.len() as u64 * 8) as usize;
            sign[i / 8] ^= 1 << (i % 8);
            set(&mut reply, sign);
        }
        "replayed answer" => {
            if !t.history.is_empty() {
                let mut old = rng.pick(t.history).value().unwrap_or(Json::Null);
                old["response"] = body.clone();
                return Reply::json(&old);
            }
            set(&mut reply, r::sign(&server.raw, &seed(rng).to_be_bytes()));
        }
        "answer to another operation" => {
            if let Some(old) = t.history.last() {
                return old.clone();
            }
            set(&mut reply, r::sign(&server.raw, &(seed_of ^ 1).to_be_bytes()));
        }
        "attacker in its own name" => reply = r::success_json(&t.attacker.raw, seed_of, body.clone()),
        "attacker in the server's name" => set(&mut reply, r::sign(&t.attacker.raw, &seed_of.to_be_bytes())),
        "attacker's name on the server's sign" => reply["public_key"] = json!(t.attacker.b64),
        "another seed signed" => {
            let other = match rng.below(4) {
                0 => seed_of ^ 1,
                1 => seed_of.wrapping_add(1),
                2 => seed_of ^ 1 << rng.below(63),
                _ => seed(rng),
            };
            set(&mut reply, r::sign(&server.raw, &other.to_be_bytes()));
        }
        "seed without top bit signed" => set(&mut reply, r::sign(&server.raw, &(seed_of & !(1 << 63)).to_be_bytes())),
        "little endian seed signed" => set(&mut reply, r::sign(&server.raw, &seed_of.to_le_bytes())),
        "decimal seed signed" => set(&mut reply, r::sign(&server.raw, seed_of.to_string().as_bytes())),
        "half the seed signed" => set(&mut reply, r::sign(&server.raw, &seed_of.to_be_bytes()[4 * rng.below(2) as usize..][..4])),
        "body signed" => set(&mut reply, r::sign(&server.raw, body.to_string().as_bytes())),
        "no proof" => { reply.as_object_mut().unwrap().remove("proof"); }
        "no sign" => reply["proof"] = json!({}),
        "no key" => { reply.as_object_mut().unwrap().remove("public_key"); }
        "empty sign" => reply["proof"]["sign"] = json!(""),
        "truncated sign" => {
            let n = rng.below(sign.len() as u64) as usize;
            set(&mut reply, sign[..n].to_vec());
        }
        "extended sign" => {
            let mut sign = sign;
            let n = rng.range(1, 40) as usize;
            sign.extend(rng.bytes(n));
            set(&mut reply, sign);
        }
        "sign halves swapped" => {
            let half = sign.len() / 2;
            set(&mut reply, [&sign[half..], &sign[..half]].concat());
        }
        "sign of zeros" => set(&mut reply, vec![0; 64]),
        "another standard" => reply["standard"] = rng.pick(&[json!(0), json!(2), json!("1"), json!(1.5), json!(u64::MAX)]).clone(),
        "no standard" => { reply.as_object_mut().unwrap().remove("standard"); }
        "error status with a success body" => {
            reply["status"] = json!(*rng.pick(&[200, 300, 301, 310, 311, 320, 321, 322]));
            if rng.bool() {
                reply["reason"] = json!(gen::string(rng, 20));
            }
        }
        "error answer" => reply = r::error_json(*rng.pick(&[200, 300, 301, 310, 311, 320, 321, 322]), &gen::string(rng, 40)),
        "error answer with proof" => {
            reply["status"] = json!(*rng.pick(&[200, 301, 320, 322]));
            reply["reason"] = json!("");
        }
        "unknown status" => reply["status"] = json!(*rng.pick(&[0u64, 1, 99, 101, 150, 199, 201, 299, 400, 1000, 65636, u64::MAX])),
        "status of another type" => reply["status"] = rng.pick(&[json!("100"), json!([100]), Json::Null, json!(-100), json!(100.5), json!(true)]).clone(),
        "success status, error shape" => reply = json!({ "standard": 1, "status": 100, "reason": "" }),
        "garbage" => return Reply::Text(200, gen::string(rng, 60)),
        "no connection" => return Reply::Fail,
        "array" => reply = json!([reply]),
        "empty object" => reply = json!({}),
        "the client's own proof" => {
            reply["public_key"] = request["public_key"].clone();
            reply["proof"]["sign"] = request["proof"]["sign"].clone();
        }
        "client key inside" => {
            reply["proof"]["sign"] = request["proof"]["sign"].clone();
        }
        "another server" => reply = r::success_json(&t.attacker.raw, seed(rng), body.clone()),
        "another client's answer" => set(&mut reply, r::sign(&t.me.raw, &seed_of.to_be_bytes())),
        "no body" => { reply.as_object_mut().unwrap().remove("response"); }
        "http error with valid answer" => return Reply::Text(*rng.pick(&[400, 404, 500, 503]), reply.to_string()),
        _ => unreachable!(),
    }
    Reply::json(&reply)
}

fn lookup_body(rng: &mut Rng) -> Json {
    if rng.bool() {
        json!({ "disposition": "local", "client": client_json(rng), "available": rng.bool() })
    } else {
        json!({ "disposition": "remote", "client": client_json(rng), "server": server_json(rng), "available": rng.bool() })
    }
}

fn body_of(rng: &mut Rng, op: &Op) -> Json {
    match op {
        Op::Lookup(..) => lookup_body(rng),
        Op::Poll(..) => json!({ "messages": list(rng, message_info_json), "remaining": gen::int(rng) }),
        _ => json!({}),
    }
}

fn c10_case(job: &mut Job) {
    let ctx = job.ctx;
    let mut rng = job.rng.fork();
    let mut s = Session::new(&mut rng);
    let address = host(&mut rng);
    let attacker = {
        let i = rng.below(3) as usize;
        s.servers[i].other(&mut rng)
    };
    let me = s.me.clone();

    // answers of earlier requests of this client, by the true server
    let history: Arc<Mutex<Vec<Reply>>> = Arc::default();

    block_on(async {
        let steps = ctx.scale(10, 16);
        for step in 0..steps {
            if s.connected.is_none() {
                if let Err(err) = s.connect(0, &address).await {
                    job.fail("a proven answer was not accepted", json!({ "operation": "connect_to", "result": format!("{err:?}") }));
                    return;
                }
            }

            let op = match rng.below(9) {
                0 => Op::Connect(address.clone()),
                1 => Op::ConnectTo(address.clone(), 0),
                2 => Op::Disconnect,
                3 => Op::Announce(format!("http://{}", host(&mut rng))),
                4 | 5 => Op::Lookup(Party::new(&mut rng).public, gen::opt_client_type(&mut rng)),
                6 => Op::Send { uri: format!("http://{}", host(&mut rng)), receiver: Party::new(&mut rng).public, channel: channel(&mut rng), message: gen::raw_message(&mut rng) },
                _ => Op::Poll(channel(&mut rng), limit(&mut rng)),
            };

            let kind = TAMPERINGS[((job.index * steps + step) % TAMPERINGS.len() as u64) as usize];
            let body = body_of(&mut rng, &op);
            let mut answers = rng.fork();
            let server = s.servers[0].clone();
            let seen: Arc<Mutex<Vec<(Json, Reply)>>> = Arc::default();

            {
                let (server, attacker, me, body, history, seen) = (server.clone(), attacker.clone(), me.clone(), body.clone(), history.clone(), seen.clone());
                s.answer(move |exchange| {
                    // the info of `connect` is honest here, see c10_info
                    if exchange.path.ends_with("/api/v1/info") {
                        return Reply::json(&info_json(&server, seed(&mut answers)));
                    }
                    let old = history.lock().unwrap().clone();
                    let t = Tamper { kind, server: &server, attacker: &attacker, me: &me, history: &old };
                    let reply = tamper(&mut answers, &t, exchange, &body);
                    history.lock().unwrap().push(honest(&server, exchange, body.clone()));
                    seen.lock().unwrap().push((exchange.request.clone().unwrap_or(Json::Null), reply.clone()));
                    reply
                });
            }

            let before = s.connected.as_ref().map(show_connected);
            let result = s.run(&op).await;
            let seen = seen.lock().unwrap().clone();

            let known = matches!(op, Op::Connect(_) | Op::ConnectTo(..) | Op::Disconnect | Op::Poll(..));
            let accepted = matches!(&result, Outcome::Ok(value) if !(matches!(op, Op::Lookup(..)) && value.is_null()));

            let proof = seen.iter().any(|(request, reply)| {
                let wanted = request["proof"]["seed"].as_u64().unwrap_or(0);
                believable(reply, wanted).is_some_and(|name| !known || name == server.b64)
            });

            ctx.observe(&(op.name(), kind, step, job.index % 64));
            ctx.count(if accepted { "answers accepted" } else { "answers refused" }, 1);
            ctx.count(&format!("{} operations", op.name()), 1);
            ctx.sample(kind, || json!({ "operation": format!("{op:?}"), "answer": seen.iter().map(|(_, r)| format!("{r:?}")).collect::<Vec<_>>(), "result": format!("{result:?}") }));

            let detail = || json!({ "operation": format!("{op:?}"), "tampering": kind, "exchanges": seen.iter().map(|(q, r)| json!([q, format!("{r:?}")])).collect::<Vec<_>>(), "result": format!("{result:?}"), "server": server.b64 });

            if accepted && !proof {
                job.fail("an answer without the server's proof was accepted", detail());
                return;
            }
            if kind == "none" && !accepted {
                job.fail("a proven answer was not accepted", detail());
                return;
            }
            if !accepted && s.connected.as_ref().map(show_connected) != before {
                job.fail("a refused answer changed the client", detail());
                return;
            }
        }
    });
}

/// `get_info` and `connect` against tampered server infos.
fn c10_info(job: &mut Job) {
    let ctx = job.ctx;
    let mut rng = job.rng.fork();
    let mut s = Session::new(&mut rng);
    let address = host(&mut rng);
    let server = s.servers[0].clone();
    let attacker = server.other(&mut rng);

    const KINDS: &[&str] = &["none", "bit", "key", "low seed", "seed", "attacker", "attacker sign", "empty sign", "no proof", "standard", "garbage", "fail", "array", "little endian", "error"];
    let kind = KINDS[job.index as usize % KINDS.len()];

    let good = info_json(&server, seed(&mut rng));
    let mut info = good.clone();
    let mut reply = None;
    let sign = info["proof"]["sign"].as_str().and_then(r::unb64).unwrap_or_default();
    let wanted = info["proof"]["seed"].as_u64().unwrap_or(0);
    match kind {
        "bit" => {
            let mut sign = sign;
            let i = rng.below(sign.len() as u64 * 8) as usize;
            sign[i / 8] ^= 1 << (i % 8);
            info["proof"]["sign"] = json!(r::b64(&sign));
        }
        "key" => info["server"]["public_key"] = json!(attacker.b64),
        "low seed" => {
            let low = *rng.pick(&[0u64, 1, (1 << 63) - 1, 1 << 62, 12345]);
            info["proof"] = json!({ "seed": low, "sign": r::b64(&r::sign(&server.raw, &low.to_be_bytes())) });
        }
        "seed" => info["proof"]["seed"] = json!((wanted ^ 1 << rng.below(63)) | 1 << 63),
        "attacker" => info = info_json(&attacker, wanted),
        "attacker sign" => info["proof"]["sign"] = json!(r::b64(&r::sign(&attacker.raw, &wanted.to_be_bytes()))),
        "empty sign" => info["proof"]["sign"] = json!(""),
        "no proof" => { info.as_object_mut().unwrap().remove("proof"); }
        "standard" => info["standard"] = json!(*rng.pick(&[0u64, 2, 100])),
        "garbage" => reply = Some(Reply::Text(200, gen::string(&mut rng, 30))),
        "fail" => reply = Some(Reply::Fail),
        "array" => info = json!([info]),
        "little endian" => info["proof"]["sign"] = json!(r::b64(&r::sign(&server.raw, &wanted.to_le_bytes()))),
        "error" => info = r::error_json(200, "no"),
        _ => (),
    }
    let reply = reply.unwrap_or_else(|| Reply::json(&info));

    let proof = (|| {
        let json = reply.value()?;
        let public: [u8; 33] = r::unb64(json["server"]["public_key"].as_str()?)?.try_into().ok()?;
        let seed = json["proof"]["seed"].as_u64()?;
        let sign = json["proof"]["sign"].as_str().and_then(r::unb64)?;
        Some(json["standard"] == 1 && seed >= 1 << 63 && r::verify(&public, &seed.to_be_bytes(), &sign))
    })().unwrap_or(false);

    block_on(async {
        let answer = reply.clone();
        let honest_server = server.clone();
        s.answer(move |exchange| match exchange.method {
            "GET" => answer.clone(),
            _ => honest(&honest_server, exchange, json!({})),
        });

        let info_result = s.run(&Op::Info(address.clone())).await;
        let connect_result = s.run(&Op::Connect(address.clone())).await;

        ctx.observe(&(kind, job.index));
        ctx.count(if proof { "proven infos" } else { "unproven infos" }, 1);
        let detail = || json!({ "info": format!("{reply:?}"), "get_info": format!("{info_result:?}"), "connect": format!("{connect_result:?}") });

        if matches!(info_result, Outcome::Ok(_)) != proof {
            job.fail(if proof { "a proven server info was not accepted" } else { "an unproven server info was accepted" }, detail());
        } else if matches!(connect_result, Outcome::Ok(_)) != (proof && info["server"]["public_key"] == server.b64.as_str()) {
            job.fail(if proof { "a proven answer was not accepted" } else { "connected by a server info of someone else" }, detail());
        }
    });
}

/// A lookup over hints where one server on the way is an attacker: what it
/// cannot prove is never the result.
fn c10_hints(job: &mut Job) {
    let ctx = job.ctx;
    let mut rng = job.rng.fork();
    let mut s = Session::new(&mut rng);
    let attacker = {
        let i = rng.below(3) as usize;
        s.servers[i].other(&mut rng)
    };
    let me = s.me.clone();
    let kind = *rng.pick(TAMPERINGS);
    let bad = rng.below(3);
    let mut answers = rng.fork();

    block_on(async {
        if s.connect(0, "s0").await.is_err() {
            return;
        }
        let servers = s.servers.clone();
        let trusted = [client_json(&mut rng), lookup_body(&mut rng)];
        let forged = lookup_body(&mut rng);
        let last_knows = rng.bool();
        {
            let (trusted, forged, servers) = (trusted.clone(), forged.clone(), servers.clone());
            s.answer(move |exchange| {
                let i = match exchange.host.as_str() {
                    "s0" => 0,
                    "s1" => 1,
                    _ => 2,
                };
                let body = match i {
                    0 | 1 => json!({ "disposition": "hint", "servers": [r::server_json(&servers[i + 1].public, &format!("s{}", i + 1))] }),
                    _ if last_knows => trusted[1].clone(),
                    _ => json!({ "disposition": "hint", "servers": [] }),
                };
                if i as u64 == bad {
                    let t = Tamper { kind, server: &servers[i], attacker: &attacker, me: &me, history: &[] };
                    return tamper(&mut answers, &t, exchange, &forged);
                }
                honest(&servers[i], exchange, body)
            });
        }
        let result = do_lookup(s.connected.as_ref().expect("connected"), Party::new(&mut rng).key, None).await;
        let log = s.net.take_log();
        let forged_proven = log.iter().any(|e| e.host == format!("s{bad}") && believable(&e.reply, e.request.as_ref().and_then(|q| q["proof"]["seed"].as_u64()).unwrap_or(0)).is_some());

        ctx.observe(&("hints", kind, bad, last_knows, job.index));
        ctx.count("lookups over hints", 1);

        let named = match &result {
            Outcome::Ok(value) => value["client"] == forged["client"],
            _ => false,
        };
        if named && !forged_proven {
            job.fail("an answer without the server's proof was accepted", json!({
                "operation": "lookup", "tampering": kind, "exchanges": log.iter().map(Exchange::brief).collect::<Vec<_>>(), "result": format!("{result:?}"),
            }));
        }
    });
}

pub fn c10(ctx: &Ctx) {
    ctx.cases("tampering", ctx.scale(1200, 20_000), c10_case);
    ctx.cases("info", ctx.scale(900, 12_000), c10_info);
    ctx.cases("hints", ctx.scale(800, 12_000), c10_hints);
    ctx.require("answers accepted", 100);
    ctx.require("answers refused", 1000);
    ctx.require("unproven infos", 300);
    for op in ["connect", "connect_to", "disconnect", "announce", "lookup", "send", "poll"] {
        ctx.require(&format!("{op} operations"), 300);
    }
}

// ------------------------------------------------------------------- C28

/// One request the model expects.
struct Expected {
    method: &'static str,
    url: String,
    body: Body,
}

enum Body {
    None,
    Exactly(Json),
    /// a certificate of this client for that server, and its info
    Connect([u8; 33]),
    /// a send: everything but the sender's own info is prescribed
    Send(Json),
}

fn check_request(s: &Session, e: &Exchange, expected: &Expected, started: u64) -> Result<(), String> {
    if e.method != expected.method || e.url != expected.url {
        return Err(format!("went to {} {} instead of {} {}", e.method, e.url, expected.method, expected.url));
    }
    if matches!(expected.body, Body::None) {
        return if e.request.is_none() { Ok(()) } else { Err("has a body".into()) };
    }
    let Some(request) = &e.request else { return Err("has no body".into()) };
    if request["public_key"] != s.me.b64.as_str() || !proven(request) {
        return Err("is not proven in the client's own name".into());
    }
    let body = &request["request"];
    match &expected.body {
        Body::None => unreachable!(),
        Body::Exactly(wanted) if body != wanted => Err(format!("asks {body} instead of {wanted}")),
        Body::Exactly(_) => Ok(()),
        Body::Connect(server) => {
            if body["client"] != show_info(&s.info) {
                return Err(format!("names another client info: {}", body["client"]));
            }
            let token = body["certificate"]["token"].as_str().and_then(r::unb64).unwrap_or_default();
            let sign = body["certificate"]["sign"].as_str().and_then(r::unb64).unwrap_or_default();
            if token.len() != 41 || token[8..] != server[..] {
                return Err("certifies another server".into());
            }
            if !r::verify(&s.me.public, &token, &sign) {
                return Err("certificate is not signed by the client".into());
            }
            let date = u64::from_be_bytes(token[..8].try_into().unwrap());
            let now = timestamp_now();
            if date < started || date > now {
                return Err(format!("certificate is dated {date}, at {started}..{now}"));
            }
            Ok(())
        }
        Body::Send(wanted) => {
            let mut body = body.clone();
            let info = body["sender"]["client"]["client"].take();
            // thin, as senders are addressed by their server, or the client's own
            if info != json!({ "type": "thin", "address": null }) && info != show_info(&s.info) {
                return Err(format!("names another sender info: {info}"));
            }
            if &body != wanted {
                return Err(format!("asks {body} instead of {wanted}"));
            }
            Ok(())
        }
    }
}

fn timestamp_now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_secs()).unwrap_or(0)
}

/// How the scripted server answers one request.
#[derive(Debug, Clone)]
enum Plan {
    /// server, body
    Success(usize, Json),
    /// a reply that is complete by itself (lists, infos)
    Plain(Json),
    Error(u64, String),
    Fail,
    Garbage(String),
}

fn plan_reply(servers: &[Party], plan: &Plan, e: &Exchange) -> Reply {
    match plan {
        Plan::Success(server, body) => honest(&servers[*server], e, body.clone()),
        Plan::Plain(json) => Reply::json(json),
        Plan::Error(status, reason) => Reply::json(&r::error_json(*status, reason)),
        Plan::Fail => Reply::Fail,
        Plan::Garbage(text) => Reply::Text(200, text.clone()),
    }
}

fn fault(rng: &mut Rng) -> Plan {
    match rng.below(4) {
        0 => Plan::Fail,
        1 => Plan::Garbage(gen::string(rng, 40)),
        _ => Plan::Error(*rng.pick(&[200, 300, 301, 310, 311, 320, 321, 322]), gen::string(rng, 40)),
    }
}

fn faulty(plan: &Plan) -> Option<Option<(u64, String)>> {
    match plan {
        Plan::Error(status, reason) => Some(Some((*status, reason.clone()))),
        Plan::Fail | Plan::Garbage(_) => Some(None),
        _ => None,
    }
}

/// A target address, the requests its resolution makes, and the URL it gives.
struct Target {
    uri: String,
    lookup: Option<(Json, Plan)>,
    base: Option<String>,
}

fn target(rng: &mut Rng, connected: &str) -> Target {
    match rng.below(6) {
        0..=2 => {
            let at = host(rng);
            Target { uri: format!("http://{at}"), lookup: None, base: Some(format!("http://{at}")) }
        }
        3 => {
            let at = host(rng);
            Target { uri: format!("https://{at}"), lookup: None, base: Some(format!("https://{at}")) }
        }
        _ => {
            let key = Party::new(rng);
            let (prefix, kind) = *rng.pick(&[
                ("hyperborea://", Json::Null.as_str()), ("hyp://", None), ("hyp-client://", Some("thin")), ("hyperborea-client://", Some("thin")),
                ("hyp-server://", Some("server")), ("hyperborea-server://", Some("server")), ("hyp-file://", Some("file")), ("hyperborea-file://", Some("file")),
                ("hyperborea://thin:", Some("thin")), ("hyperborea://thick:", Some("thick")), ("hyperborea://server:", Some("server")), ("hyperborea://file:", Some("file")),
            ]);
            let asked = json!({ "public_key": key.b64, "type": kind });
            let (plan, base) = match rng.below(5) {
                0 => (Plan::Success(0, json!({ "disposition": "hint", "servers": [] })), None),
                1 | 2 => (Plan::Success(0, json!({ "disposition": "local", "client": client_json(rng), "available": rng.bool() })), Some(format!("http://{connected}"))),
                _ => {
                    let at = host(rng);
                    let server = r::server_json(&Party::new(rng).public, &at);
                    (Plan::Success(0, json!({ "disposition": "remote", "client": client_json(rng), "server": server, "available": rng.bool() })), Some(format!("http://{at}")))
                }
            };
            Target { uri: format!("{prefix}{}", key.b64), lookup: Some((asked, plan)), base }
        }
    }
}

fn c28_session(job: &mut Job) {
    let ctx = job.ctx;
    let mut rng = job.rng.fork();
    let mut s = Session::new(&mut rng);
    let mut trace: Vec<String> = Vec::new();

    block_on(async {
        let steps = ctx.scale(10, 20);
        for _ in 0..steps {
            let connected = s.connected.as_ref().map(show_connected);
            let at = connected.as_ref().and_then(|c| c["server"]["address"].as_str()).unwrap_or("").to_string();
            let i = rng.below(3) as usize;
            let addr = host(&mut rng);

            // the operation, what it must send, and how that is answered
            let mut expected: Vec<Expected> = Vec::new();
            let mut plans: Vec<Plan> = Vec::new();
            // Some(Ok) / Some(server's error) / None: some other error
            let mut wanted: Option<Outcome> = None;
            let mut rest: Option<(String, &'static str, Body)> = None;
            let fails = rng.chance(20);

            let pick = if connected.is_none() { rng.below(6) } else { rng.below(14) };
            let op = match pick {
                0 => {
                    let json = info_json(&s.servers[i], seed(&mut rng));
                    wanted = Some(Outcome::Ok(json!({ "standard": 1, "public_key": json["server"]["public_key"], "seed": json["proof"]["seed"], "sign": json["proof"]["sign"] })));
                    plans.push(Plan::Plain(json));
                    expected.push(Expected { method: "GET", url: format!("http://{addr}/api/v1/info"), body: Body::None });
                    Op::Info(addr)
                }
                1 => {
                    let records = list(&mut rng, client_json);
                    wanted = Some(Outcome::Ok(json!(records)));
                    plans.push(Plan::Plain(json!({ "standard": 1, "clients": records })));
                    expected.push(Expected { method: "GET", url: format!("http://{addr}/api/v1/clients"), body: Body::None });
                    Op::Clients(addr)
                }
                2 => {
                    let records = list(&mut rng, server_json);
                    wanted = Some(Outcome::Ok(json!(records)));
                    plans.push(Plan::Plain(json!({ "standard": 1, "servers": records })));
                    expected.push(Expected { method: "GET", url: format!("http://{addr}/api/v1/servers"), body: Body::None });
                    Op::Servers(addr)
                }
                3 => {
                    plans.push(Plan::Plain(info_json(&s.servers[i], seed(&mut rng))));
                    plans.push(Plan::Success(i, json!({})));
                    expected.push(Expected { method: "GET", url: format!("http://{addr}/api/v1/info"), body: Body::None });
                    expected.push(Expected { method: "POST", url: format!("http://{addr}/api/v1/connect"), body: Body::Connect(s.servers[i].public) });
                    Op::Connect(addr)
                }
                4 | 5 => {
                    plans.push(Plan::Success(i, json!({})));
                    expected.push(Expected { method: "POST", url: format!("http://{addr}/api/v1/connect"), body: Body::Connect(s.servers[i].public) });
                    Op::ConnectTo(addr, i)
                }
                6 => {
                    rest = Some((format!("http://{at}/api/v1/disconnect"), "disconnect", Body::Exactly(json!({}))));
                    wanted = Some(Outcome::Ok(show_driver_of(&s)));
                    Op::Disconnect
                }
                7 | 8 | 9 | 10 => {
                    let t = target(&mut rng, &at);
                    if let Some((asked, plan)) = t.lookup {
                        expected.push(Expected { method: "POST", url: format!("http://{at}/api/v1/lookup"), body: Body::Exactly(asked) });
                        plans.push(plan);
                    }
                    let c = connected.as_ref().unwrap();
                    let (op, path, body) = if pick < 9 {
                        (Op::Announce(t.uri), "announce", Body::Exactly(json!({ "announce": "client", "client": c["client"], "server": c["server"] })))
                    } else {
                        let receiver = Party::new(&mut rng);
                        let (channel, message) = (channel(&mut rng), gen::raw_message(&mut rng));
                        let mut sender = c["client"].clone();
                        sender["client"] = Json::Null;
                        let body = json!({
                            "sender": { "client": sender, "server": c["server"] },
                            "receiver": { "public_key": receiver.b64 },
                            "channel": channel,
                            "message": { "content": message.content, "sign": message.sign, "encoding": message.encoding.to_string() },
                        });
                        (Op::Send { uri: t.uri, receiver: receiver.public, channel, message }, "send", Body::Send(body))
                    };
                    match t.base {
                        Some(base) => {
                            rest = Some((format!("{base}/api/v1/{path}"), path, body));
                            wanted = Some(Outcome::Ok(json!(true)));
                        }
                        // not found: the reason's text is the library's own
                        None => wanted = Some(Outcome::Failed(311, String::new())),
                    }
                    op
                }
                11 => {
                    let target = Party::new(&mut rng);
                    let kind = gen::opt_client_type(&mut rng);
                    let body = lookup_body(&mut rng);
                    let mut found = body.clone();
                    found.as_object_mut().unwrap().remove("disposition");
                    if body["disposition"] == "local" {
                        found["server"] = connected.as_ref().unwrap()["server"].clone();
                    }
                    // the server the client is connected to answers
                    let server = s.servers.iter().position(|p| p.b64 == found_key(&connected)).unwrap_or(0);
                    expected.push(Expected { method: "POST", url: format!("http://{at}/api/v1/lookup"), body: Body::Exactly(json!({ "public_key": target.b64, "type": kind.map(show_type) })) });
                    plans.push(Plan::Success(server, body));
                    wanted = Some(Outcome::Ok(found));
                    Op::Lookup(target.public, kind)
                }
                _ => {
                    let (channel, limit) = (channel(&mut rng), limit(&mut rng));
                    rest = Some((format!("http://{at}/api/v1/poll"), "poll", Body::Exactly(json!({ "channel": channel, "limit": limit }))));
                    Op::Poll(channel, limit)
                }
            };

            let own = s.servers.iter().position(|p| p.b64 == found_key(&connected)).unwrap_or(0);
            for plan in plans.iter_mut() {
                if let (Plan::Success(server, _), Op::Announce(_) | Op::Send { .. }) = (plan, &op) {
                    *server = own;
                }
            }

            if let Some((url, path, body)) = rest {
                expected.push(Expected { method: "POST", url, body });
                plans.push(match path {
                    "poll" => {
                        let messages = list(&mut rng, message_info_json);
                        let remaining = gen::int(&mut rng);
                        let body = json!({ "messages": messages, "remaining": remaining });
                        wanted = Some(Outcome::Ok(body.clone()));
                        Plan::Success(own, body)
                    }
                    "disconnect" => Plan::Success(own, json!({})),
                    // whoever answers there, in its own name
                    _ => Plan::Success(rng.below(3) as usize, json!({})),
                });
            }

            // one answer may be a fault; what follows is then never sent
            if fails && !plans.is_empty() {
                let n = rng.below(plans.len() as u64) as usize;
                let bad = fault(&mut rng);
                // an error of a lookup only means "not here"
                let is_lookup = expected[n].url.ends_with("/api/v1/lookup");
                wanted = match faulty(&bad).expect("fault") {
                    Some(_) if is_lookup && matches!(op, Op::Lookup(..)) => Some(Outcome::Ok(Json::Null)),
                    Some(_) if is_lookup => Some(Outcome::Failed(311, String::new())),
                    // lists and infos have no error form
                    Some((status, reason)) if expected[n].method == "POST" => Some(Outcome::Failed(status, reason)),
                    _ => None,
                };
                plans.truncate(n);
                plans.push(bad);
                expected.truncate(n + 1);
            } else if matches!(op, Op::Connect(_) | Op::ConnectTo(..)) {
                wanted = Some(Outcome::Ok(Json::Null));
            }

            let shown: Vec<String> = plans.iter().map(|p| format!("{p:?}")).collect();
            {
                let servers = s.servers.clone();
                let mut plans: VecDeque<Plan> = plans.into();
                s.answer(move |e| match plans.pop_front() {
                    Some(plan) => plan_reply(&servers, &plan, e),
                    None => Reply::Fail,
                });
            }

            let started = timestamp_now();
            let result = s.run(&op).await;
            let log = s.net.take_log();
            trace.push(format!("{op:?}"));

            ctx.observe(&(job.index, trace.len(), op.name()));
            ctx.count(&format!("{} operations", op.name()), 1);
            ctx.count("requests checked", log.len() as u64);
            ctx.sample(op.name(), || json!({ "operation": format!("{op:?}"), "answers": shown, "requests": log.iter().map(|e| format!("{} {}", e.method, e.url)).collect::<Vec<_>>(), "result": format!("{result:?}") }));

            let detail = |what: String| json!({
                "operation": format!("{op:?}"), "problem": what, "exchanges": log.iter().map(Exchange::brief).collect::<Vec<_>>(),
                "result": format!("{result:?}"), "history": trace, "client": s.me.b64, "connected": connected,
            });

            if log.len() != expected.len() {
                job.fail("an operation made other requests than it should", detail(format!("{} requests instead of {}", log.len(), expected.len())));
                return;
            }
            for (e, expected) in log.iter().zip(&expected) {
                if let Err(why) = check_request(&s, e, expected, started) {
                    job.fail("a request is not the one asked for", detail(why));
                    return;
                }
            }

            let ok = match (&wanted, &result) {
                (Some(Outcome::Ok(_)), Outcome::Ok(got)) if matches!(op, Op::Connect(_) | Op::ConnectTo(..)) => {
                    // exactly the accepted connection
                    let last = log.last().and_then(|e| e.request.clone()).unwrap_or(Json::Null);
                    let (Op::Connect(addr) | Op::ConnectTo(addr, _)) = &op else { unreachable!() };
                    *got == json!({
                        "server": { "public_key": s.servers[i].b64, "address": addr },
                        "certificate": last["request"]["certificate"],
                        "client": { "public_key": s.me.b64, "certificate": last["request"]["certificate"], "client": show_info(&s.info) },
                        "driver": show_driver_of(&s),
                    })
                }
                (Some(Outcome::Ok(wanted)), Outcome::Ok(got)) => wanted == got,
                (Some(Outcome::Failed(status, reason)), Outcome::Failed(got, text)) => status == got && (reason == text || (*status == 311 && reason.is_empty())),
                (None, Outcome::Err(_) | Outcome::Failed(..)) => true,
                _ => false,
            };
            if !ok {
                job.fail("an operation gave back something else than the server's answer", detail(format!("wanted {wanted:?}")));
                return;
            }

            // no effect of failed operations, and only that of the others
            let after = s.connected.as_ref().map(show_connected);
            let keeps = !matches!((&op, &result), (Op::Connect(_) | Op::ConnectTo(..) | Op::Disconnect, Outcome::Ok(_)));
            if keeps && after != connected {
                job.fail("an operation changed the client", detail(format!("{after:?}")));
                return;
            }
            if show_driver(s.client.driver_ref()) != show_driver_of(&s) {
                job.fail("an operation changed the client", detail("another driver".into()));
                return;
            }
            if let Some(client) = &s.connected {
                let plain = client.disconnected();
                if show_driver(plain.driver_ref()) != show_driver_of(&s) || !s.net.take_log().is_empty() {
                    job.fail("the disconnected variant is another client", detail(String::new()));
                    return;
                }
            }
        }
    });
}

fn found_key(connected: &Option<Json>) -> String {
    connected.as_ref().and_then(|c| c["server"]["public_key"].as_str()).unwrap_or("").to_string()
}

fn show_driver_of(s: &Session) -> Json {
    json!({ "public_key": s.me.b64, "info": show_info(&s.info) })
}

/// Concurrent operations of one client: every call gets the answer to its own
/// request.
fn c28_concurrent(job: &mut Job) {
    let ctx = job.ctx;
    let mut rng = job.rng.fork();
    let mut s = Session::new(&mut rng);

    block_on(async {
        if s.connect(0, "s0").await.is_err() {
            job.fail("an operation gave back something else than the server's answer", json!({ "operation": "connect_to" }));
            return;
        }
        s.net.yields(rng.u64() | 1);
        let server = s.servers[0].clone();
        let answers = Arc::new(AtomicU64::new(0));
        let fixed = (message_info_json(&mut rng), client_json(&mut rng));
        {
            let (fixed, answers) = (fixed.clone(), answers.clone());
            s.answer(move |e| {
                answers.fetch_add(1, Ordering::SeqCst);
                let q = &e.request.as_ref().expect("request")["request"];
                if e.path == "/api/v1/poll" {
                    // echo what was asked
                    let mut message = fixed.0.clone();
                    message["channel"] = q["channel"].clone();
                    honest(&server, e, json!({ "messages": [message], "remaining": q["limit"] }))
                } else {
                    let mut found = fixed.1.clone();
                    found["client"]["address"] = q["public_key"].clone();
                    honest(&server, e, json!({ "disposition": "local", "client": found, "available": q["type"] == "thin" }))
                }
            });
        }
        let client = s.connected.clone().expect("connected");
        let calls: Vec<Op> = (0..rng.range(2, 12)).map(|n| if rng.bool() {
            Op::Poll(format!("{n}-{}", gen::word(&mut rng, 6)), Some(gen::int(&mut rng)))
        } else {
            Op::Lookup(Party::new(&mut rng).public, gen::opt_client_type(&mut rng))
        }).collect();
        let results = crate::ctx::join_all(calls.iter().map(|op| operate(&client, op)).collect()).await;
        s.net.yields(0);
        for (op, result) in calls.iter().zip(results) {
            let wanted = match op {
                Op::Poll(channel, limit) => {
                    let mut message = fixed.0.clone();
                    message["channel"] = json!(channel);
                    json!({ "messages": [message], "remaining": limit })
                }
                Op::Lookup(key, kind) => {
                    let mut found = fixed.1.clone();
                    found["client"]["address"] = json!(r::b64(key));
                    json!({ "client": found, "server": show_server(client.connected_server()), "available": *kind == Some(ClientType::Thin) })
                }
                _ => unreachable!(),
            };
            ctx.observe(&(job.index, format!("{op:?}")));
            if result != Outcome::Ok(wanted.clone()) {
                job.fail("an operation gave back something else than the server's answer", json!({ "operation": format!("{op:?}"), "result": format!("{result:?}"), "wanted": wanted, "concurrent": calls.len() }));
                return;
            }
        }
        ctx.count("concurrent operations", calls.len() as u64);
    });
}

pub fn c28(ctx: &Ctx) {
    ctx.cases("session", ctx.scale(1200, 20_000), c28_session);
    ctx.cases("concurrent", ctx.scale(400, 6000), c28_concurrent);
    for op in ["info", "clients", "servers", "connect", "connect_to", "disconnect", "announce", "lookup", "send", "poll"] {
        ctx.require(&format!("{op} operations"), 200);
    }
    ctx.require("requests checked", 5000);
    ctx.require("concurrent operations", 500);
}

// a router and an inbox for servers that only serve as clients

pub struct NoRouter;
pub struct NoInbox;

#[async_trait::async_trait]
impl Router for NoRouter {
    type Error = std::io::Error;

    async fn index_local_client(&self, _client: ClientRecord) -> Result<bool, Self::Error> { Ok(false) }
    async fn index_server(&self, _server: ServerRecord) -> Result<bool, Self::Error> { Ok(false) }
    async fn disconnect(&self, _public_key: &PublicKey) -> Result<(), Self::Error> { Ok(()) }
    async fn local_clients(&self) -> Result<Vec<ClientRecord>, Self::Error> { Ok(Vec::new()) }
    async fn remote_clients(&self) -> Result<Vec<(ClientRecord, ServerRecord)>, Self::Error> { Ok(Vec::new()) }
}

#[async_trait::async_trait]
impl MessagesInbox for NoInbox {
    type Error = std::io::Error;

    async fn add_message(&self, _sender: Sender, _receiver: PublicKey, _channel: String, _message: Message) -> Result<(), Self::Error> { Ok(()) }
    async fn poll_messages(&self, _receiver: PublicKey, _channel: String, _limit: Option<u64>) -> Result<(Vec<MessageInfo>, u64), Self::Error> { Ok((Vec::new(), 0)) }
}

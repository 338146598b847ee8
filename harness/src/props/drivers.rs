//! C11, C14, C15, C17: the server over other drivers. A table and an inbox
//! with scripted answers and failures record what the server asks of them; a
//! table with only the required methods shows what the trait adds.

use std::collections::VecDeque;
use std::sync::{Arc, Mutex};

use hyperborealib::drivers::prelude::*;
use hyperborealib::prelude::*;
use hyperborealib::rest_api::types::{Client as ClientRecord, MessageInfo, Sender, Server as ServerRecord};
use serde_json::{json, Value as Json};

use crate::ctx::{block_on, Ctx, Job};
use crate::gen::{self, Rng};
use crate::net::{MemClient, MemServer, Net, Reply};
use crate::props::server::{info_of, refused, seed, success, Party};
use crate::refimpl as r;

#[derive(Debug)]
pub struct Failure;

impl std::fmt::Display for Failure {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("planned failure")
    }
}

impl std::error::Error for Failure {}

/// What the drivers answer to the coming calls, and the calls they got.
#[derive(Default)]
struct Script {
    /// calls with their arguments
    calls: Vec<(&'static str, Json)>,
    /// names of the calls that fail
    failing: Vec<&'static str>,
    indexed: bool,
    local: Option<(ClientRecord, bool)>,
    remote: Option<(ClientRecord, ServerRecord, bool)>,
    hint: Vec<ServerRecord>,
    clients: Vec<ClientRecord>,
    servers: Vec<ServerRecord>,
    polls: VecDeque<(Vec<MessageInfo>, u64)>,
}

#[derive(Clone, Default)]
struct Scripted(Arc<Mutex<Script>>);

impl Scripted {
    fn call<T>(&self, name: &'static str, arguments: Json, answer: impl FnOnce(&mut Script) -> T) -> Result<T, Failure> {
        let mut script = self.0.lock().unwrap();
        script.calls.push((name, arguments));
        if script.failing.contains(&name) { Err(Failure) } else { Ok(answer(&mut script)) }
    }
}

fn j<T: AsJson>(value: &T) -> Json {
    value.to_json().unwrap_or_default()
}

fn kind_name(kind: Option<ClientType>) -> Json {
    kind.map_or(Json::Null, |kind| json!(kind.to_string()))
}

#[async_trait::async_trait]
impl Router for Scripted {
    type Error = Failure;

    async fn index_local_client(&self, client: ClientRecord) -> Result<bool, Failure> {
        self.call("index_local_client", json!([j(&client)]), |s| s.indexed)
    }

    async fn index_remote_client(&self, client: ClientRecord, server: ServerRecord) -> Result<bool, Failure> {
        self.call("index_remote_client", json!([j(&client), j(&server)]), |s| s.indexed)
    }

    async fn index_server(&self, server: ServerRecord) -> Result<bool, Failure> {
        self.call("index_server", json!([j(&server)]), |s| s.indexed)
    }

    async fn disconnect(&self, public_key: &PublicKey) -> Result<(), Failure> {
        self.call("disconnect", json!([public_key.to_base64()]), |_| ())
    }

    async fn local_clients(&self) -> Result<Vec<ClientRecord>, Failure> {
        self.call("local_clients", json!([]), |s| s.clients.clone())
    }

    async fn remote_clients(&self) -> Result<Vec<(ClientRecord, ServerRecord)>, Failure> {
        self.call("remote_clients", json!([]), |_| vec![])
    }

    async fn servers(&self) -> Result<Vec<ServerRecord>, Failure> {
        self.call("servers", json!([]), |s| s.servers.clone())
    }

    async fn lookup_local_client(&self, public_key: &PublicKey, kind: Option<ClientType>) -> Result<Option<(ClientRecord, bool)>, Failure> {
        self.call("lookup_local_client", json!([public_key.to_base64(), kind_name(kind)]), |s| s.local.clone())
    }

    async fn lookup_remote_client(&self, public_key: &PublicKey, kind: Option<ClientType>) -> Result<Option<(ClientRecord, ServerRecord, bool)>, Failure> {
        self.call("lookup_remote_client", json!([public_key.to_base64(), kind_name(kind)]), |s| s.remote.clone())
    }

    async fn lookup_remote_client_hint(&self, public_key: &PublicKey, kind: Option<ClientType>) -> Result<Vec<ServerRecord>, Failure> {
        self.call("hint", json!([public_key.to_base64(), kind_name(kind)]), |s| s.hint.clone())
    }
}

#[async_trait::async_trait]
impl MessagesInbox for Scripted {
    type Error = Failure;

    async fn add_message(&self, sender: Sender, receiver: PublicKey, channel: String, message: Message) -> Result<(), Failure> {
        self.call("add_message", json!([j(&sender), receiver.to_base64(), channel, j(&message)]), |_| ())
    }

    async fn poll_messages(&self, receiver: PublicKey, channel: String, limit: Option<u64>) -> Result<(Vec<MessageInfo>, u64), Failure> {
        self.call("poll_messages", json!([receiver.to_base64(), channel, limit]), |s| s.polls.pop_front().unwrap_or_default())
    }
}

struct World {
    net: Net,
    server: Party,
    script: Scripted,
}

impl World {
    async fn new(rng: &mut Rng) -> Self {
        let net = Net::new();
        let server = Party::new(rng);
        let script = Scripted::default();
        let driver = ServerDriver::new(script.clone(), BfsRecursionTraversal, script.clone(), ServerParams {
            secret_key: server.secret.clone(),
            address: "h".into(),
        });
        let middleware: ServerMiddleware<MemClient, MemServer, Scripted, BfsRecursionTraversal, Scripted> =
            ServerMiddleware::new(net.client(200), MemServer::default(), driver).await;
        net.put("h", middleware.http_server().clone());
        Self { net, server, script }
    }

    /// Send a genuine request; the reply and the calls it caused.
    async fn request(&self, path: &str, actor: &Party, seed: u64, body: Json) -> (Reply, Vec<(&'static str, Json)>) {
        self.script.0.lock().unwrap().calls.clear();
        let reply = self.net.post("h", path, &r::request_json(&actor.raw, seed, body)).await;
        let calls = std::mem::take(&mut self.script.0.lock().unwrap().calls);
        (reply, calls)
    }
}

/// Calls that change something or take messages.
fn effects(calls: &[(&'static str, Json)]) -> Vec<(&'static str, Json)> {
    let effects = ["index_local_client", "index_remote_client", "index_server", "disconnect", "add_message", "poll_messages"];
    calls.iter().filter(|(name, _)| effects.contains(name)).cloned().collect()
}

/// Which part of the driver is under test, and whether it fails.
#[derive(Clone, Copy, PartialEq)]
enum Part {
    Table,
    Inbox,
}

fn records(rng: &mut Rng, n: u64) -> Vec<ServerRecord> {
    (0..rng.below(n + 1)).map(|_| {
        let key = gen::secret(rng).public_key();
        ServerRecord::new(key, gen::string(rng, 12))
    }).collect()
}

fn scripted_case(job: &mut Job, part: Part, faults: bool) {
    let mut rng = job.rng.fork();
    block_on(async {
        let rng = &mut rng;
        let world = World::new(rng).await;
        let actor = Party::new(rng);
        let other = Party::new(rng);
        let mut date = 1_700_000_000;

        for _ in 0..8 {
            let seed = seed(rng);
            date += rng.below(3);
            let home = Party::new(rng);
            let failing = faults && rng.chance(60);
            world.script.0.lock().unwrap().failing.clear();
            let fail = |name: &'static str| {
                if failing {
                    world.script.0.lock().unwrap().failing.push(name);
                }
            };
            world.script.0.lock().unwrap().indexed = rng.chance(70);

            // an operation with one effect: (path, body, effect)
            let operation = match (part, rng.below(if faults { 5 } else { 7 })) {
                (Part::Inbox, n) if n % 2 == 0 => {
                    let info = info_of(rng);
                    let client = r::client_json(&actor.raw, date, &world.server.public, &info);
                    let sender = json!({ "client": client, "server": r::server_json(&world.server.public, "h") });
                    let message = j(&gen::raw_message(rng));
                    let channel = gen::string(rng, 20);
                    fail("add_message");
                    Some(("/api/v1/send", json!({ "sender": sender, "receiver": { "public_key": other.b64 }, "channel": channel, "message": message }),
                        ("add_message", json!([sender, other.b64, channel, message]))))
                }
                (Part::Inbox, _) => {
                    let channel = gen::string(rng, 20);
                    let limit = if rng.bool() { None } else { Some(gen::int(rng)) };
                    let messages: Vec<MessageInfo> = (0..rng.below(4)).map(|_| {
                        MessageInfo::new(gen::sender_record(rng), gen::string(rng, 10), gen::raw_message(rng), gen::int(rng))
                    }).collect();
                    let remaining = gen::int(rng);
                    world.script.0.lock().unwrap().polls = VecDeque::from([(messages.clone(), remaining)]);
                    fail("poll_messages");
                    let (reply, calls) = world.request("/api/v1/poll", &actor, seed, json!({ "channel": channel, "limit": limit })).await;
                    let want = vec![("poll_messages", json!([actor.b64, channel, limit]))];
                    job.check(effects(&calls) == want, "a poll is not one poll of the requester's queue", || json!({ "calls": calls, "expected": want }));
                    if failing {
                        job.check(refused(&reply).is_ok(), "a poll that failed is not answered with an error", || json!({ "reply": format!("{reply:?}") }));
                        job.ctx.count("failures reported", 1);
                    } else {
                        let want = json!({ "messages": messages.iter().map(j).collect::<Vec<_>>(), "remaining": remaining });
                        let got = success(&reply, &world.server, seed);
                        job.check(got.as_ref() == Ok(&want), "a poll does not return what the queue gave", || json!({ "reply": got, "queue": want }));
                        job.ctx.count("polls compared", 1);
                    }
                    job.ctx.observe(&(calls.len(), failing, format!("{reply:?}")));
                    None
                }
                (Part::Table, 0 | 1) => {
                    let info = info_of(rng);
                    let certificate = r::certificate_json(&actor.raw, date, &world.server.public);
                    let record = json!({ "public_key": actor.b64, "certificate": certificate, "client": info });
                    fail("index_local_client");
                    Some(("/api/v1/connect", json!({ "certificate": certificate, "client": info }), ("index_local_client", json!([record]))))
                }
                (Part::Table, 2) => {
                    let info = info_of(rng);
                    let record = r::client_json(&other.raw, date, &home.public, &info);
                    let server = r::server_json(&home.public, &gen::string(rng, 12));
                    fail("index_remote_client");
                    Some(("/api/v1/announce", json!({ "announce": "client", "client": record, "server": server }), ("index_remote_client", json!([record, server]))))
                }
                (Part::Table, 3) => {
                    let server = r::server_json(&home.public, &gen::string(rng, 12));
                    fail("index_server");
                    Some(("/api/v1/announce", json!({ "announce": "server", "server": server }), ("index_server", json!([server]))))
                }
                (Part::Table, 4) => {
                    fail("disconnect");
                    Some(("/api/v1/disconnect", json!({}), ("disconnect", json!([actor.b64]))))
                }
                (Part::Table, 5) => {
                    lookup(job, rng, &world, &actor, &other, date).await;
                    None
                }
                (Part::Table, _) => {
                    let clients: Vec<ClientRecord> = (0..rng.below(4)).map(|_| { let s = gen::secret(rng); gen::client_record(rng, &s, &world.server.key) }).collect();
                    let servers = records(rng, 4);
                    {
                        let mut script = world.script.0.lock().unwrap();
                        script.clients = clients.clone();
                        script.servers = servers.clone();
                    }
                    for (path, field, want) in [
                        ("/api/v1/clients", "clients", clients.iter().map(j).collect::<Vec<_>>()),
                        ("/api/v1/servers", "servers", servers.iter().map(j).collect()),
                    ] {
                        let reply = world.net.raw("h", "GET", path, None).await;
                        let got = reply.value().unwrap_or_default()[field].clone();
                        job.ctx.observe(&(path, got.to_string()));
                        job.ctx.count("lists compared with the driver's", 1);
                        job.check(got == json!(want), &format!("{path} is not what the table lists"), || json!({ "listed": got, "table": want }));
                    }
                    None
                }
            };

            if let Some((path, body, effect)) = operation {
                let (reply, calls) = world.request(path, &actor, seed, body.clone()).await;
                job.ctx.observe(&(path, failing, body.to_string()));
                job.check(effects(&calls) == [effect.clone()], "a request does not have exactly its one effect", || json!({ "path": path, "body": body, "effects": effects(&calls), "expected": [effect] }));
                if failing {
                    job.ctx.count("failures reported", 1);
                    job.check(refused(&reply).is_ok(), "a request whose effect failed is acknowledged", || json!({ "path": path, "body": body, "reply": format!("{reply:?}") }));
                } else {
                    job.ctx.count("requests with their effect", 1);
                    let got = success(&reply, &world.server, seed);
                    job.check(got.is_ok(), "a genuine request is not acknowledged", || json!({ "path": path, "body": body, "reply": got }));
                }
            }
        }
    });
}

/// A lookup over scripted answers: the newest record of the two tables with
/// the availability its table gave, or the table's hint.
async fn lookup(job: &Job<'_>, rng: &mut Rng, world: &World, actor: &Party, target: &Party, date: u64) {
    let record = |rng: &mut Rng, date: u64| {
        let home = gen::secret(rng).public_key();
        ClientRecord::new(target.key.clone(), gen::certificate_at(&target.secret, &home, date), gen::client_info(rng))
    };
    let local = rng.chance(55).then(|| {
        let date = date + rng.below(3);
        (record(rng, date), rng.bool())
    });
    let remote = rng.chance(55).then(|| {
        let server = ServerRecord::new(gen::secret(rng).public_key(), gen::string(rng, 10));
        let date = date + rng.below(3);
        (record(rng, date), server, rng.bool())
    });
    let hint = records(rng, 4);
    // not the hint
    let servers = records(rng, 4);
    let failing = *rng.pick(&["", "", "", "lookup_local_client", "lookup_remote_client", "hint"]);
    {
        let mut script = world.script.0.lock().unwrap();
        (script.local, script.remote, script.hint, script.servers) = (local.clone(), remote.clone(), hint.clone(), servers);
        script.failing = if failing.is_empty() { vec![] } else { vec![failing] };
    }
    let kind = gen::opt_client_type(rng);
    let seed = seed(rng);
    let body = json!({ "public_key": target.b64, "type": kind_name(kind) });
    let (reply, calls) = world.request("/api/v1/lookup", actor, seed, body).await;
    job.check(effects(&calls).is_empty(), "a lookup changes something", || json!({ "calls": calls }));
    for (name, arguments) in &calls {
        if matches!(*name, "lookup_local_client" | "lookup_remote_client" | "hint") {
            job.check(*arguments == json!([target.b64, kind_name(kind)]), "a lookup asks the table for something else", || json!({ "call": name, "arguments": arguments }));
        }
    }

    let local_json = local.as_ref().map(|(c, a)| (c.certificate.token.auth_date, json!({ "disposition": "local", "client": j(c), "available": a })));
    let remote_json = remote.as_ref().map(|(c, s, a)| (c.certificate.token.auth_date, json!({ "disposition": "remote", "client": j(c), "server": j(s), "available": a })));
    let allowed: Vec<Json> = match (&local_json, &remote_json) {
        (None, None) => vec![json!({ "disposition": "hint", "servers": hint.iter().map(j).collect::<Vec<_>>() })],
        (Some((a, l)), Some((b, r))) => if a > b { vec![l.clone()] } else if b > a { vec![r.clone()] } else { vec![l.clone(), r.clone()] },
        (Some((_, l)), None) => vec![l.clone()],
        (None, Some((_, r))) => vec![r.clone()],
    };
    job.ctx.observe(&(failing, format!("{reply:?}")));
    let got = success(&reply, &world.server, seed);

    // A table that could not be read cannot give a wrong answer: the reply is
    // an error, or the right answer all the same.
    let asked = calls.iter().any(|(name, _)| *name == failing);
    match got {
        Ok(got) => {
            job.check(allowed.contains(&got), "a lookup does not answer what the table knows", || json!({ "reply": got, "allowed": allowed, "failing": failing }));
            job.ctx.count("lookups compared with the driver's answer", 1);
        }
        Err(what) => {
            job.check(asked && refused(&reply).is_ok(), "a lookup fails", || json!({ "reply": what, "failing": failing }));
            job.ctx.count("lookups refused for a failing table", 1);
        }
    }
}

// ------------------------------------------------- what the trait provides

/// Only the methods a table has to have.
#[derive(Default)]
struct Minimal {
    local: Mutex<Vec<ClientRecord>>,
    remote: Vec<(ClientRecord, ServerRecord)>,
}

#[async_trait::async_trait]
impl Router for Minimal {
    type Error = Failure;

    async fn index_local_client(&self, client: ClientRecord) -> Result<bool, Failure> {
        self.local.lock().unwrap().push(client);
        Ok(true)
    }

    async fn index_server(&self, _server: ServerRecord) -> Result<bool, Failure> {
        Ok(false)
    }

    async fn disconnect(&self, public_key: &PublicKey) -> Result<(), Failure> {
        self.local.lock().unwrap().retain(|client| &client.public_key != public_key);
        Ok(())
    }

    async fn local_clients(&self) -> Result<Vec<ClientRecord>, Failure> {
        Ok(self.local.lock().unwrap().clone())
    }

    async fn remote_clients(&self) -> Result<Vec<(ClientRecord, ServerRecord)>, Failure> {
        Ok(self.remote.clone())
    }
}

fn minimal_case(job: &mut Job) {
    let mut rng = job.rng.fork();
    block_on(async {
        let rng = &mut rng;
        let people: Vec<Party> = (0..4).map(|_| Party::new(rng)).collect();
        let homes: Vec<ServerRecord> = (0..3).map(|_| { let s = gen::secret(rng); gen::server_record(rng, s.public_key()) }).collect();
        let record = |rng: &mut Rng| {
            let secret = rng.pick(&people).secret.clone();
            let home = rng.pick(&homes).public_key.clone();
            gen::client_record(rng, &secret, &home)
        };
        let local: Vec<ClientRecord> = (0..rng.below(5)).map(|_| record(rng)).collect();
        let remote: Vec<(ClientRecord, ServerRecord)> = (0..rng.below(5)).map(|_| { let c = record(rng); (c, rng.pick(&homes).clone()) }).collect();
        let router = Minimal { local: Mutex::new(local.clone()), remote: remote.clone() };

        let fits = |client: &ClientRecord, key: &PublicKey, kind: Option<ClientType>| &client.public_key == key && kind.is_none_or(|kind| client.info.client_type == kind);
        let known: Vec<Json> = remote.iter().map(|(_, s)| j(s)).collect();

        for person in &people {
            for kind in [None, Some(ClientType::Thin), Some(ClientType::Thick), Some(ClientType::Server), Some(ClientType::File)] {
                let got = router.lookup_local_client(&person.key, kind).await.ok().flatten();
                let right = match &got {
                    Some((client, available)) => *available && fits(client, &person.key, kind) && local.contains(client),
                    None => !local.iter().any(|c| fits(c, &person.key, kind)),
                };
                job.check(right, "a provided local lookup is wrong", || json!({ "answer": format!("{got:?}"), "kind": kind_name(kind) }));
                let got = router.lookup_remote_client(&person.key, kind).await.ok().flatten();
                let right = match &got {
                    Some((client, server, available)) => *available && fits(client, &person.key, kind) && remote.contains(&(client.clone(), server.clone())),
                    None => !remote.iter().any(|(c, _)| fits(c, &person.key, kind)),
                };
                job.check(right, "a provided remote lookup is wrong", || json!({ "answer": format!("{got:?}"), "kind": kind_name(kind) }));
                let hint: Vec<Json> = router.lookup_remote_client_hint(&person.key, kind).await.unwrap_or_default().iter().map(j).collect();
                job.check(known.iter().all(|s| hint.contains(s)) && hint.iter().all(|s| known.contains(s)), "a provided hint is not the known servers", || json!({ "hint": hint, "known": known }));
                job.ctx.count("provided lookups", 3);
            }
        }
        for home in &homes {
            let got = router.lookup_server(&home.public_key).await.ok().flatten();
            let right = match &got {
                Some((server, available)) => *available && server == home && known.contains(&j(server)),
                None => !known.contains(&j(home)),
            };
            job.check(right, "a provided server lookup is wrong", || json!({ "answer": format!("{got:?}") }));
        }
        // the documented default: a remote client is indexed as any other
        let client = record(rng);
        let indexed = router.index_remote_client(client.clone(), homes[0].clone()).await;
        job.check(matches!(indexed, Ok(true)) && router.local.lock().unwrap().last() == Some(&client), "a remote client is not indexed", || json!({ "answer": format!("{indexed:?}") }));
        job.ctx.observe(&(format!("{:?}{:?}", local.len(), remote.len()), known.len(), job.index));
    });
}

pub fn c11(ctx: &Ctx) {
    ctx.cases("scripted table", ctx.scale(300, 20_000), |job| scripted_case(job, Part::Table, false));
    ctx.cases("minimal table", ctx.scale(150, 10_000), minimal_case);
    ctx.require("lookups compared with the driver's answer", 80);
    ctx.require("lookups refused for a failing table", 5);
    ctx.require("lists compared with the driver's", 100);
    ctx.require("provided lookups", 1_000);
}

pub fn c14(ctx: &Ctx) {
    ctx.cases("failing table", ctx.scale(150, 10_000), |job| scripted_case(job, Part::Table, true));
    ctx.require("failures reported", 200);
}

pub fn c15(ctx: &Ctx) {
    ctx.cases("scripted inbox", ctx.scale(200, 10_000), |job| scripted_case(job, Part::Inbox, false));
    ctx.require("polls compared", 100);
}

pub fn c17(ctx: &Ctx) {
    ctx.cases("failing inbox", ctx.scale(150, 10_000), |job| scripted_case(job, Part::Inbox, true));
    ctx.require("failures reported", 200);
}

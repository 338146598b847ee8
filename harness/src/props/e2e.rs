//! C25: whole conversations. Several real servers, each in a runtime of its
//! own, and real clients on threads of their own, over HTTP on the loopback
//! network. Everything that is sent and polled is logged and reconciled
//! afterwards.

use std::collections::{BTreeMap, BTreeSet};
use std::net::SocketAddr;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Barrier, Mutex, RwLock};
use std::time::Duration;

use hyperborealib::prelude::*;
use hyperborealib::rest_api::types::MessageInfo;
use serde_json::{json, Value as Json};
use tokio::io::AsyncWriteExt;
use tokio::net::TcpStream;
use tokio::runtime::Runtime;

use crate::ctx::{join_all, Ctx, Job};
use crate::gen::{self, Rng};
use crate::httpd::{answers, HttpServerUnderTest};
use crate::net::driver;
use crate::props::server::Party;
use crate::refimpl as r;

type Client = ConnectedClientMiddleware<ReqwestHttpClient>;

// ------------------------------------------------------------------- world

struct Served {
    party: Party,
    address: SocketAddr,
    dir: PathBuf,
    runtime: Mutex<Option<Runtime>>,
}

impl Served {
    fn name(&self) -> String {
        self.address.to_string()
    }

    /// Serve from what is stored. False if the address is taken.
    fn start(&self, neighbours: &[(PublicKey, String)]) -> bool {
        let runtime = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().expect("runtime");
        let served = runtime.block_on(async {
            for _ in 0..100 {
                let driver = driver(&self.dir, &self.party.secret, &self.name()).await.expect("server folders");
                let server: HttpServerUnderTest = ServerMiddleware::new(ReqwestHttpClient::default(), AxumHttpServer::default(), driver).await;
                for (key, address) in neighbours {
                    let record = hyperborealib::rest_api::types::Server::new(key.clone(), address.clone());
                    server.driver().router().index_server(record).await.expect("a server can be indexed");
                }
                let address = self.address;
                let task = tokio::spawn(async move {
                    let _ = server.serve(address).await;
                });
                tokio::time::sleep(Duration::from_millis(1)).await;
                if answers(self.address).await && !task.is_finished() {
                    return true;
                }
                tokio::time::sleep(Duration::from_millis(20)).await;
            }
            false
        });
        *self.runtime.lock().unwrap() = Some(runtime);
        served
    }

    fn stop(&self) {
        if let Some(runtime) = self.runtime.lock().unwrap().take() {
            runtime.shutdown_timeout(Duration::from_secs(20));
        }
    }
}

struct Person {
    party: Party,
    kind: ClientType,
    /// connected to its home all the time
    stays: bool,
    home: usize,
    /// servers it was ever connected with, or tried to
    visited: Mutex<BTreeSet<usize>>,
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Fate {
    Acknowledged,
    Unknown,
    /// the receiver was not found: nothing was sent
    NotSent,
}

#[derive(Debug, Clone)]
struct Sent {
    id: u64,
    content: Vec<u8>,
    device: usize,
    sender: usize,
    from: usize,
    receiver: usize,
    /// the server it was addressed to, if the sender named it
    to: Option<usize>,
    channel: String,
    start: u64,
    end: u64,
    fate: Fate,
}

struct Polled {
    person: usize,
    server: usize,
    channel: String,
    limit: Option<u64>,
    start: u64,
    end: u64,
    messages: Vec<MessageInfo>,
    remaining: u64,
    /// nothing else happened meanwhile
    quiet: bool,
}

struct World<'a> {
    ctx: &'a Ctx,
    servers: Vec<Served>,
    people: Vec<Person>,
    channels: Vec<String>,
    restarts: bool,
    clock: AtomicU64,
    next: AtomicU64,
    sent: Mutex<Vec<Sent>>,
    polled: Mutex<Vec<Polled>>,
    wrong: Mutex<Vec<(String, Json)>>,
    /// polls read, restarts write: the reply of a poll is never lost
    polling: RwLock<()>,
    stop: AtomicBool,
}

impl World<'_> {
    fn tick(&self) -> u64 {
        self.clock.fetch_add(1, Ordering::SeqCst)
    }

    fn wrong(&self, what: &str, detail: Json) {
        let mut wrong = self.wrong.lock().unwrap();
        if wrong.len() < 5 {
            wrong.push((what.to_string(), detail));
        }
    }

    /// Errors have a reason only where servers are restarted.
    fn failed(&self, what: &str, err: impl std::fmt::Debug) {
        if self.restarts {
            self.ctx.count("operations that met a restart", 1);
        } else {
            self.wrong(what, json!(format!("{err:?}")));
        }
    }

    fn server_of(&self, key: &PublicKey, address: &str) -> Option<usize> {
        self.servers.iter().position(|s| s.party.key == *key && s.name() == address)
    }
}

// ---------------------------------------------------------------- sessions

struct Device<'a> {
    world: &'a World<'a>,
    id: usize,
    me: usize,
    rng: Rng,
    client: Option<Client>,
    at: usize,
}

impl Device<'_> {
    fn person(&self) -> &Person {
        &self.world.people[self.me]
    }

    async fn connect(&mut self, at: usize) -> bool {
        let world = self.world;
        let server = &world.servers[at];
        world.people[self.me].visited.lock().unwrap().insert(at);
        let info = ClientInfo { client_type: self.person().kind, address: None };
        let client = match self.client.take() {
            Some(client) => client.disconnected(),
            None => ClientMiddleware::new(ReqwestHttpClient::default(), ClientDriver::new(info, self.person().party.secret.clone())),
        };
        for _ in 0..200 {
            let result = if self.rng.bool() {
                client.connect(server.name()).await
            } else {
                client.connect_to(server.name(), server.party.key.clone()).await
            };
            match result {
                Ok(client) => {
                    if client.connected_server().public_key != server.party.key || client.connected_server().address != server.name() {
                        world.wrong("a client is connected to another server", json!(client.connected_server().address));
                    }
                    self.client = Some(client);
                    self.at = at;
                    world.ctx.count("connections", 1);
                    return true;
                }
                Err(err) => world.failed("a client could not connect", err),
            }
            if !world.restarts {
                return false;
            }
            tokio::time::sleep(Duration::from_millis(20)).await;
        }
        world.ctx.error("a restarted server was not reached");
        false
    }

    fn uri(&mut self, receiver: usize) -> (String, Option<usize>, bool) {
        let world = self.world;
        let rng = &mut self.rng;
        let person = &world.people[receiver];
        let kind = match person.kind {
            ClientType::Thin => "thin",
            ClientType::Thick => "thick",
            ClientType::Server => "server",
            ClientType::File => "file",
        };
        let key = person.party.key.to_base64();
        match rng.below(10) {
            0..=3 => {
                let to = if person.stays || rng.bool() { person.home } else { rng.below(world.servers.len() as u64) as usize };
                (format!("http://{}", world.servers[to].name()), Some(to), true)
            }
            4..=6 => (format!("{}://{key}", rng.pick(&["hyp", "hyperborea"])), None, true),
            7 | 8 => (format!("{}://{kind}:{key}", rng.pick(&["hyp", "hyperborea"])), None, true),
            // a client of that key, but not of that type
            _ => {
                let other = *rng.pick(&["thin", "thick", "server", "file"]);
                (format!("hyp://{other}:{key}"), None, other == kind)
            }
        }
    }

    async fn send(&mut self) {
        let world = self.world;
        let rng = &mut self.rng;
        let receiver = rng.below(world.people.len() as u64) as usize;
        let person = &world.people[receiver];
        let channel = rng.pick(&world.channels).clone();
        let id = world.next.fetch_add(1, Ordering::SeqCst);
        let mut content = format!("{id}:").into_bytes();
        content.extend(gen::content(rng, 300));
        let encoding = gen::encoding(rng);
        let me = &world.people[self.me];
        let message = match Message::create(&me.party.secret, &person.party.key, &content, encoding, CompressionLevel::default()) {
            Ok(message) => message,
            Err(err) => return world.wrong("a message could not be created", json!(format!("{err:?}"))),
        };
        let (uri, to, exists) = self.uri(receiver);
        let patience = if self.rng.chance(6) { Some(Duration::from_micros(self.rng.below(3_000))) } else { None };
        let client = self.client.as_ref().expect("connected");
        let start = world.tick();
        let sending = client.send(&uri, person.party.key.clone(), &channel, message);
        let result = match patience {
            None => Some(sending.await),
            Some(patience) => tokio::time::timeout(patience, sending).await.ok(),
        };
        let end = world.tick();
        let fate = match &result {
            Some(Ok(())) => Fate::Acknowledged,
            None => Fate::Unknown,
            Some(Err(MiddlewareError::RequestFailed { status: ResponseStatus::ClientNotFound, .. })) => {
                if exists && (person.stays || to.is_some()) && !world.restarts {
                    world.wrong("a connected client was not found", json!({ "uri": uri, "stays": person.stays }));
                }
                Fate::NotSent
            }
            Some(Err(err)) => {
                world.failed("a message could not be sent", err);
                Fate::Unknown
            }
        };
        if fate == Fate::Acknowledged && !exists {
            world.wrong("a message was sent to a client that does not exist", json!(uri));
        }
        // found by its key: a client that stays is at home
        let to = to.or(person.stays.then_some(person.home));
        world.ctx.count(&format!("sends by {}: {fate:?}", uri.split_once("://").map_or("?", |(scheme, _)| scheme)), 1);
        world.sent.lock().unwrap().push(Sent { id, content, device: self.id, sender: self.me, from: self.at, receiver, to, channel, start, end, fate });
    }

    async fn poll(&mut self, channel: Option<String>, limit: Option<Option<u64>>, quiet: bool) -> Option<u64> {
        let world = self.world;
        let rng = &mut self.rng;
        let channel = channel.unwrap_or_else(|| rng.pick(&world.channels).clone());
        let limit = limit.unwrap_or_else(|| match rng.below(5) {
            0 | 1 => None,
            2 => Some(1),
            3 => Some(rng.below(6)),
            _ => Some(u64::MAX - rng.below(2)),
        });
        let _guard = world.polling.read().unwrap();
        let client = self.client.as_ref().expect("connected");
        let start = world.tick();
        let result = client.poll(&channel, limit).await;
        let end = world.tick();
        match result {
            Ok((messages, remaining)) => {
                let n = messages.len() as u64;
                world.ctx.count("polls", 1);
                world.polled.lock().unwrap().push(Polled { person: self.me, server: self.at, channel, limit, start, end, messages, remaining, quiet });
                Some(n)
            }
            Err(err) => {
                world.failed("a client could not poll", err);
                None
            }
        }
    }

    async fn lookup(&mut self) {
        let world = self.world;
        let wanted = self.rng.below(world.people.len() as u64) as usize;
        let person = &world.people[wanted];
        let kind = gen::opt_client_type(&mut self.rng);
        let client = self.client.as_ref().expect("connected");
        let result = client.lookup(person.party.key.clone(), kind).await;
        let matches = kind.is_none_or(|kind| kind == person.kind);
        let detail = |what: String| json!({ "type": format!("{kind:?}"), "client": format!("{:?}", person.kind), "stays": person.stays, "got": what });
        match result {
            Err(err) => world.failed("a client could not look up another", err),
            Ok(None) => {
                if matches && person.stays && !world.restarts {
                    world.wrong("a connected client was not found", detail("nothing".into()));
                }
            }
            Ok(Some((found, server, _))) => {
                world.ctx.count("lookups that found a client", 1);
                let place = world.server_of(&server.public_key, &server.address);
                if found.public_key != person.party.key || found.info.client_type != person.kind || !matches {
                    world.wrong("another client was found", detail(format!("{found:?}")));
                } else if place.is_none_or(|place| !person.visited.lock().unwrap().contains(&place)) || (person.stays && place != Some(person.home)) {
                    world.wrong("a client was found where it is not", detail(format!("{server:?}")));
                }
            }
        }
    }

    async fn look_around(&mut self) {
        let world = self.world;
        let at = self.rng.below(world.servers.len() as u64) as usize;
        let server = &world.servers[at];
        let client = self.client.as_ref().expect("connected").disconnected();
        match self.rng.below(3) {
            0 => match client.get_info(server.name()).await {
                Ok(info) if info.public_key == server.party.key => (),
                Ok(info) => world.wrong("a server has another key", json!(format!("{info:?}"))),
                Err(err) => world.failed("a server's key could not be read", err),
            },
            1 => match client.get_clients(server.name()).await {
                Ok(clients) => {
                    for person in world.people.iter().filter(|person| person.stays) {
                        let listed = clients.iter().filter(|client| client.public_key == person.party.key).count();
                        // a server that goes down meanwhile may answer with an empty list
                        let down = world.restarts && clients.is_empty();
                        if listed != usize::from(person.home == at) && !down {
                            world.wrong("a server does not list its clients", json!({ "listed": listed, "home": person.home, "asked": at }));
                        }
                    }
                    for client in &clients {
                        match world.people.iter().find(|person| person.party.key == client.public_key) {
                            Some(person) if person.visited.lock().unwrap().contains(&at) => (),
                            _ => world.wrong("a server lists a client it never had", json!(format!("{client:?}"))),
                        }
                    }
                }
                Err(err) => world.failed("a server's clients could not be read", err),
            },
            _ => match client.get_servers(server.name()).await {
                Ok(servers) => for server in servers {
                    if world.server_of(&server.public_key, &server.address).is_none() {
                        world.wrong("a server nobody runs is listed", json!(format!("{server:?}")));
                    }
                },
                Err(err) => world.failed("the servers could not be read", err),
            },
        }
        world.ctx.count("looks at a server", 1);
    }

    async fn announce(&mut self) {
        let world = self.world;
        let to = self.rng.below(world.servers.len() as u64) as usize;
        let client = self.client.as_ref().expect("connected");
        match client.announce(format!("http://{}", world.servers[to].name())).await {
            Ok(()) => world.ctx.count("announcements", 1),
            Err(err) => world.failed("a client could not announce itself", err),
        }
    }

    async fn leave(&mut self) -> bool {
        let world = self.world;
        if self.rng.bool() {
            let client = self.client.clone().expect("connected");
            match client.disconnect().await {
                Ok(_) => world.ctx.count("disconnections", 1),
                Err(err) => world.failed("a client could not disconnect", err),
            }
        }
        let to = self.rng.below(world.servers.len() as u64) as usize;
        self.connect(to).await
    }

    async fn live(&mut self, steps: u64) {
        let may_leave = !self.person().stays;
        for _ in 0..steps {
            match self.rng.below(100) {
                0..=49 => self.send().await,
                50..=76 => { self.poll(None, None, false).await; }
                77..=83 => self.lookup().await,
                84..=88 => self.look_around().await,
                89..=93 => self.announce().await,
                94..=97 if may_leave => if !self.leave().await {
                    return;
                },
                _ => tokio::time::sleep(Duration::from_micros(self.rng.below(2_000))).await,
            }
        }
    }
}

/// Connections that are no conversation.
async fn noise(world: &World<'_>, mut rng: Rng) {
    let stranger = Party::new(&mut rng);
    while !world.stop.load(Ordering::SeqCst) {
        let server = &world.servers[rng.below(world.servers.len() as u64) as usize];
        let person = &world.people[rng.below(world.people.len() as u64) as usize];
        let path = *rng.pick(&["send", "poll", "connect", "announce", "disconnect", "lookup"]);
        let mut request = r::request_json(&stranger.raw, rng.u64() | 1 << 63, json!({ "channel": rng.pick(&world.channels), "limit": null }));
        // in somebody else's name
        request["public_key"] = json!(person.party.b64);
        let body = request.to_string();
        let mut bytes = format!("POST /api/v1/{path} HTTP/1.1\r\nHost: x\r\nContent-Length: {}\r\n\r\n{body}", body.len()).into_bytes();
        if rng.bool() {
            bytes.truncate(rng.below(bytes.len() as u64) as usize);
        }
        if let Ok(mut stream) = TcpStream::connect(server.address).await {
            let _ = stream.write_all(&bytes).await;
            if rng.chance(20) {
                let _ = stream.set_zero_linger();
            }
            tokio::time::sleep(Duration::from_micros(rng.below(3_000))).await;
        }
        world.ctx.count("foreign connections", 1);
    }
}

fn local() -> Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime")
}

// ----------------------------------------------------------------- verdict

/// What is wrong with the recorded traffic?
fn reconcile(world: &World, sent: &[Sent], polled: &[Polled], from: u64, until: u64) -> Result<(), (String, Json)> {
    let by_id: BTreeMap<u64, &Sent> = sent.iter().map(|s| (s.id, s)).collect();
    // message -> (poll, place in it)
    let mut got: BTreeMap<u64, (usize, usize)> = BTreeMap::new();

    for (i, poll) in polled.iter().enumerate() {
        let person = &world.people[poll.person];
        if poll.limit.is_some_and(|limit| poll.messages.len() as u64 > limit) {
            return Err(("more messages than asked for".into(), json!({ "limit": poll.limit, "got": poll.messages.len() })));
        }
        for (place, info) in poll.messages.iter().enumerate() {
            let key = info.sender.client.public_key.clone();
            let content = match info.message.read(&person.party.secret, &key) {
                Ok(content) => content,
                Err(err) => return Err(("a polled message is not readable".into(), json!(format!("{err:?}")))),
            };
            let id = content.split(|b| *b == b':').next().and_then(|id| std::str::from_utf8(id).ok()).and_then(|id| id.parse().ok());
            let Some(sent) = id.and_then(|id: u64| by_id.get(&id)) else {
                return Err(("a message nobody sent was polled".into(), json!(String::from_utf8_lossy(&content))));
            };
            let detail = || json!({
                "sent": format!("{:?}", Sent { content: Vec::new(), ..(*sent).clone() }), "polled by": poll.person, "on": poll.server, "channel": poll.channel,
                "sender record": format!("{:?}", info.sender.server), "received_at": info.received_at,
            });
            if content != sent.content {
                return Err(("a message has another content".into(), detail()));
            }
            if sent.receiver != poll.person {
                return Err(("a message was polled by somebody else".into(), detail()));
            }
            if sent.channel != poll.channel || info.channel != sent.channel {
                return Err(("a message was polled from another channel".into(), detail()));
            }
            if sent.to.is_some_and(|to| to != poll.server) || !world.people[sent.receiver].visited.lock().unwrap().contains(&poll.server) {
                return Err(("a message was polled on another server".into(), detail()));
            }
            if sent.fate == Fate::NotSent {
                return Err(("a message that was not sent arrived".into(), detail()));
            }
            let sender = &world.people[sent.sender];
            let home = &world.servers[sent.from];
            if key != sender.party.key || world.server_of(&info.sender.server.public_key, &info.sender.server.address) != Some(sent.from) {
                return Err(("a message is attributed to another sender".into(), detail()));
            }
            let certificate = &info.sender.client.certificate;
            if certificate.token.public_key != home.party.key
                || !r::verify(&sender.party.public, &r::token(certificate.token.auth_date, &home.party.public), &certificate.sign)
            {
                return Err(("the sender's certificate is not the sender's".into(), detail()));
            }
            if info.received_at < from || info.received_at > until {
                return Err(("a message was received at another time".into(), detail()));
            }
            if poll.end < sent.start {
                return Err(("a message was polled before it was sent".into(), detail()));
            }
            if let Some((other, _)) = got.insert(sent.id, (i, place)) {
                return Err(("a message was polled twice".into(), json!({ "message": detail(), "first on": polled[other].server })));
            }
            world.ctx.observe(&content);
        }
    }

    for sent in sent {
        if sent.fate == Fate::Acknowledged && !got.contains_key(&sent.id) {
            return Err(("an acknowledged message was never polled".into(), json!(format!("{:?}", Sent { content: Vec::new(), ..sent.clone() }))));
        }
        if sent.fate == Fate::Unknown {
            world.ctx.count(if got.contains_key(&sent.id) { "unacknowledged and delivered" } else { "unacknowledged and not delivered" }, 1);
        }
    }

    // the order of each sender's messages, for each receiver and channel
    let mut lines: BTreeMap<(usize, usize, usize, &str), Vec<&Sent>> = BTreeMap::new();
    for sent in sent {
        if let Some((poll, _)) = got.get(&sent.id) {
            lines.entry((sent.device, sent.receiver, polled[*poll].server, &sent.channel)).or_default().push(sent);
        }
    }
    for line in lines.values_mut() {
        line.sort_by_key(|sent| sent.start);
        for (i, first) in line.iter().enumerate() {
            // an unacknowledged message may arrive whenever
            if first.fate != Fate::Acknowledged {
                continue;
            }
            for second in line[i + 1..].iter().filter(|second| second.start > first.end) {
                let (a, b) = (got[&first.id], got[&second.id]);
                let wrong = if a.0 == b.0 { a.1 > b.1 } else { polled[b.0].end < polled[a.0].start };
                if wrong {
                    return Err(("messages of a sender are out of order".into(), json!({ "first": first.id, "second": second.id, "polls": [a, b] })));
                }
                world.ctx.count("ordered pairs", 1);
            }
        }
    }

    // a poll of everything leaves nothing that was acknowledged before
    for (i, poll) in polled.iter().enumerate() {
        if poll.limit.is_some() && !(poll.quiet && poll.remaining == 0) {
            continue;
        }
        for sent in sent.iter().filter(|s| s.fate == Fate::Acknowledged && s.end < poll.start && s.receiver == poll.person && s.channel == poll.channel) {
            let (by, _) = got[&sent.id];
            if polled[by].server == poll.server && by != i && polled[by].start > poll.end {
                return Err(("a poll left an acknowledged message behind".into(), json!({ "message": sent.id, "channel": sent.channel, "limit": poll.limit })));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- cases

fn conversation(job: &mut Job, restarts: bool) {
    let mut rng = job.rng.fork();
    let rng = &mut rng;
    let ctx = job.ctx;
    let servers: Vec<Served> = (0..rng.range(1, 3)).map(|_| Served {
        party: Party::new(rng),
        address: SocketAddr::from(([127, rng.range(1, 250) as u8, rng.range(1, 250) as u8, rng.range(1, 250) as u8], rng.range(10_000, 30_000) as u16)),
        dir: ctx.fresh_dir("e2e"),
        runtime: Mutex::default(),
    }).collect();
    let n = servers.len();
    for (i, server) in servers.iter().enumerate() {
        // a ring, and more
        let known: Vec<_> = servers.iter().enumerate()
            .filter(|(j, _)| *j == (i + 1) % n || rng.chance(30))
            .map(|(_, other)| (other.party.key.clone(), other.name())).collect();
        if !server.start(&known) {
            // taken
            ctx.count("addresses taken", 1);
            servers.iter().for_each(Served::stop);
            return;
        }
    }
    let people: Vec<Person> = (0..rng.range(2, 5)).map(|i| Person {
        party: Party::new(rng),
        kind: gen::client_type(rng),
        stays: i == 0 || rng.bool(),
        home: rng.below(n as u64) as usize,
        visited: Mutex::default(),
    }).collect();
    let mut channels: Vec<String> = (0..rng.range(1, 3)).map(|i| match rng.below(4) {
        0 => format!("../channel/{i}"),
        1 => format!("канал {i}"),
        2 => format!("{i}"),
        _ => format!("{}{i}", gen::word(rng, 8)),
    }).collect();
    if rng.bool() {
        // nearly the same
        channels.push(format!("{} ", channels[0]));
    }
    let world = World {
        ctx, servers, people, channels, restarts,
        clock: AtomicU64::new(1), next: AtomicU64::new(1),
        sent: Mutex::default(), polled: Mutex::default(), wrong: Mutex::default(),
        polling: RwLock::default(), stop: AtomicBool::new(false),
    };
    let world = &world;
    let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_secs());
    let from = now();

    // every person has a device, some have two
    let mut devices: Vec<usize> = (0..world.people.len()).collect();
    for i in 0..world.people.len() {
        if rng.chance(35) {
            devices.push(i);
        }
    }
    let steps = rng.range(10, 40);
    let ready = Barrier::new(devices.len() + 1);
    let left = AtomicU64::new(devices.len() as u64);
    std::thread::scope(|scope| {
        for (id, me) in devices.iter().enumerate() {
            let (ready, left, rng) = (&ready, &left, rng.fork());
            let mut device = Device { world, id, me: *me, rng, client: None, at: 0 };
            std::thread::Builder::new().name(format!("device {id}")).stack_size(8 << 20).spawn_scoped(scope, move || {
                local().block_on(async {
                    let connected = device.connect(world.people[device.me].home).await;
                    ready.wait();
                    if connected {
                        for _ in 0..device.rng.below(3) {
                            device.announce().await;
                        }
                        device.live(steps).await;
                    }
                });
                left.fetch_sub(1, Ordering::SeqCst);
            }).expect("spawn");
        }
        ready.wait();
        let noisy = rng.fork();
        let disturb = rng.chance(60);
        scope.spawn(move || if disturb {
            local().block_on(noise(world, noisy));
        });
        while left.load(Ordering::SeqCst) > 0 {
            if restarts && rng.chance(50) {
                let server = &world.servers[rng.below(n as u64) as usize];
                let _guard = world.polling.write().unwrap();
                server.stop();
                if !server.start(&[]) {
                    ctx.error("a server could not be started again");
                }
                ctx.count("restarts", 1);
            }
            std::thread::sleep(Duration::from_millis(rng.range(1, 40)));
        }
        world.stop.store(true, Ordering::SeqCst);
    });

    // everybody polls everything that is left, everywhere
    local().block_on(async {
        let drains = (0..world.people.len()).flat_map(|me| (0..n).map(move |at| (me, at))).map(|(me, at)| {
            let rng = rng.fork();
            async move {
                let mut device = Device { world, id: usize::MAX, me, rng, client: None, at };
                if !device.connect(at).await {
                    return;
                }
                for channel in &world.channels {
                    loop {
                        let limit = if device.rng.bool() { None } else { Some(device.rng.range(1, 20)) };
                        let Some(n) = device.poll(Some(channel.clone()), Some(limit), true).await else { break };
                        let polled = world.polled.lock().unwrap();
                        let last = polled.iter().rev().find(|p| p.quiet && p.person == me && p.server == at).expect("logged");
                        if last.remaining == 0 {
                            break;
                        }
                        if n == 0 || limit.is_none_or(|limit| n < limit) {
                            world.wrong("messages remain, but are not given", json!({ "remaining": last.remaining, "limit": limit, "given": n }));
                            break;
                        }
                    }
                    // and now there is nothing
                    match device.poll(Some(channel.clone()), None, true).await {
                        None | Some(0) => (),
                        Some(n) => world.wrong("an emptied channel has messages", json!(n)),
                    }
                }
            }
        }).collect::<Vec<_>>();
        join_all(drains).await;
    });
    for server in &world.servers {
        server.stop();
        let _ = std::fs::remove_dir_all(&server.dir);
    }

    let (sent, polled) = (world.sent.lock().unwrap(), world.polled.lock().unwrap());
    ctx.count("messages acknowledged", sent.iter().filter(|s| s.fate == Fate::Acknowledged).count() as u64);
    ctx.count("messages polled while sending", polled.iter().filter(|p| !p.quiet).map(|p| p.messages.len() as u64).sum());
    ctx.count("conversations", 1);
    let about = json!({ "servers": n, "people": world.people.len(), "devices": devices.len(), "steps": steps, "channels": world.channels, "restarts": restarts });
    ctx.sample("conversation", || about.clone());
    for (what, detail) in world.wrong.lock().unwrap().iter() {
        job.fail(what, json!({ "detail": detail, "about": about }));
    }
    if let Err((what, detail)) = reconcile(world, &sent, &polled, from, now()) {
        job.fail(what, json!({ "detail": detail, "about": about }));
    }
}

pub fn c25(ctx: &Ctx) {
    ctx.cases_on(4, "conversation", ctx.scale(70, 2_000), |job| conversation(job, false));
    ctx.cases_on(4, "restarts", ctx.scale(30, 800), |job| conversation(job, true));
    ctx.require("messages acknowledged", 2_000);
    ctx.require("messages polled while sending", 800);
    ctx.require("ordered pairs", 1_000);
    ctx.require("restarts", 30);
    ctx.require("lookups that found a client", 200);
}

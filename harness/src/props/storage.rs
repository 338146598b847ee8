//! C29: what is left on a server's disk. Every message and record carries
//! strings found nowhere else; the storage is searched for those of messages
//! that were delivered, of records that were replaced or removed, and of
//! requests that were refused.

use std::collections::BTreeMap;
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use hyperborealib::prelude::*;
use hyperborealib::rest_api::types::{Client as ClientRecord, Server as ServerRecord};
use serde_json::{json, Value as Json};

use crate::ctx::{abandon, block_on, Ctx, Job};
use crate::gen::{self, Rng};
use crate::net::{tree, Host, Net};
use crate::props::server::{refused, seed, success, Party};
use crate::refimpl as r;

/// How long the library may take to tidy up.
const PATIENCE: Duration = Duration::from_secs(5);

fn patience(ctx: &Ctx) -> Duration {
    // once a violation is known, others need not be waited for
    if ctx.violated() { PATIENCE / 20 } else { PATIENCE }
}

/// A string found nowhere else.
fn marker(rng: &mut Rng) -> String {
    let mut text = r::b64(&rng.bytes(18));
    text.insert_str(0, "Mk");
    text
}

/// The first of the strings that some file still has.
fn found(dir: &Path, dead: &[(String, &'static str)]) -> Option<(String, String, &'static str)> {
    for (name, content) in tree(dir) {
        let content = content.unwrap_or_default();
        for (text, why) in dead {
            let text = text.as_bytes();
            if name.as_bytes().windows(text.len()).any(|part| part == text) || memmem(&content, text) {
                return Some((name, String::from_utf8_lossy(text).into_owned(), why));
            }
        }
    }
    None
}

fn memmem(hay: &[u8], needle: &[u8]) -> bool {
    hay.windows(needle.len()).any(|part| part == needle)
}

/// Wait until `problem` finds nothing anymore; what it still finds in the end.
async fn settled<T>(ctx: &Ctx, mut problem: impl FnMut() -> Option<T>) -> Option<T> {
    let start = Instant::now();
    let patience = patience(ctx);
    loop {
        let found = problem();
        if found.is_none() || start.elapsed() > patience {
            return found;
        }
        tokio::time::sleep(Duration::from_millis(20)).await;
    }
}

fn message_with(rng: &mut Rng, marks: &mut Vec<String>) -> Json {
    let (content, sign) = (marker(rng), marker(rng));
    marks.extend([content.clone(), sign.clone()]);
    let content = if rng.chance(20) { format!("{content}{}", "x".repeat(rng.below(20_000) as usize)) } else { content };
    json!({ "content": content, "sign": sign, "encoding": "base64" })
}

fn info_with(rng: &mut Rng, marks: &mut Vec<String>) -> Json {
    let address = marker(rng);
    marks.push(address.clone());
    let kind = *rng.pick(&["thin", "thick", "server", "file"]);
    r::info_json(kind, Some(&address))
}

struct World {
    net: Net,
    host: Host,
    server: Party,
    date: u64,
}

impl World {
    async fn request(&self, rng: &mut Rng, path: &str, actor: &Party, body: Json) -> Result<Json, String> {
        let seed = seed(rng);
        let reply = self.net.post("h", path, &r::request_json(&actor.raw, seed, body)).await;
        success(&reply, &self.server, seed)
    }

    /// The request with a proof of somebody else.
    async fn unproven(&self, rng: &mut Rng, path: &str, actor: &Party, body: Json) -> Result<(), String> {
        let other = Party::new(rng);
        let mut request = r::request_json(&other.raw, seed(rng), body);
        request["public_key"] = json!(actor.b64);
        refused(&self.net.post("h", path, &request).await)
    }
}

/// A history of all kinds of requests; the storage is searched after each.
fn history(job: &mut Job) {
    let mut rng = job.rng.fork();
    block_on(async {
        let rng = &mut rng;
        let net = Net::new();
        let server = Party::new(rng);
        let host = Host::start(&net, "h", server.secret.clone(), job.ctx.fresh_dir("host")).await;
        let mut world = World { net, host, server, date: 1_700_000_000 };

        let n = rng.range(1, 3) as usize;
        let parties = Party::several(rng, n);
        let channels: Vec<String> = (0..rng.range(1, 2)).map(|i| if rng.bool() { format!("channel {i}") } else { format!("{}/{i}", gen::word(rng, 4)) }).collect();

        let mut queues: BTreeMap<(usize, usize), std::collections::VecDeque<Vec<String>>> = BTreeMap::new();
        let mut local: BTreeMap<usize, (u64, Vec<String>)> = BTreeMap::new();
        let mut remote: BTreeMap<usize, (u64, Vec<String>)> = BTreeMap::new();
        let mut servers: BTreeMap<usize, Vec<String>> = BTreeMap::new();
        let mut dead: Vec<(String, &'static str)> = Vec::new();
        let mut log: Vec<String> = Vec::new();

        for _ in 0..rng.range(15, 45) {
            let who = rng.below(parties.len() as u64) as usize;
            let actor = parties[who].clone();
            let channel = rng.below(channels.len() as u64) as usize;
            let mut marks = Vec::new();
            let mut read = None;
            let known = dead.len();

            let outcome: Result<(), String> = match rng.below(100) {
                0..=24 => {
                    let message = message_with(rng, &mut marks);
                    let sender = Party::new(rng);
                    let info = info_with(rng, &mut marks);
                    let home = Party::new(rng);
                    let address = marker(rng);
                    marks.push(address.clone());
                    let body = json!({
                        "sender": { "client": r::client_json(&sender.raw, 1, &home.public, &info), "server": r::server_json(&home.public, &address) },
                        "receiver": { "public_key": actor.b64 },
                        "channel": channels[channel],
                        "message": message,
                    });
                    if rng.chance(15) {
                        log.push(format!("refused send to {who}"));
                        dead.extend(marks.drain(..).map(|mark| (mark, "the request was refused")));
                        world.unproven(rng, "/api/v1/send", &sender, body).await
                    } else {
                        log.push(format!("send to {who} in {channel}"));
                        queues.entry((who, channel)).or_default().push_back(marks);
                        world.request(rng, "/api/v1/send", &sender, body).await.map(|_| ())
                    }
                }
                25..=49 => {
                    let limit = if rng.bool() { None } else { Some(rng.below(4)) };
                    log.push(format!("poll {limit:?} by {who} of {channel}"));
                    let queue = queues.entry((who, channel)).or_default();
                    let known = queue.len();
                    match world.request(rng, "/api/v1/poll", &actor, json!({ "channel": channels[channel], "limit": limit })).await {
                        Ok(response) => {
                            let got = response["messages"].as_array().map_or(0, Vec::len);
                            if got > known {
                                Err(format!("{got} messages of {known}"))
                            } else {
                                dead.extend(queue.drain(..got).flatten().map(|mark| (mark, "the message was delivered")));
                                job.ctx.count("messages delivered", got as u64);
                                Ok(())
                            }
                        }
                        Err(what) => Err(what),
                    }
                }
                50..=64 => {
                    let info = info_with(rng, &mut marks);
                    let older = rng.chance(25);
                    world.date += 10;
                    let date = if older { world.date - 1_000_000 } else { world.date };
                    let certificate = r::certificate_json(&actor.raw, date, &world.server.public);
                    marks.push(certificate["sign"].as_str().unwrap_or("no sign in a certificate").to_string());
                    let body = json!({ "certificate": certificate, "client": info });
                    if rng.chance(15) {
                        log.push(format!("refused connect of {who}"));
                        dead.extend(marks.drain(..).map(|mark| (mark, "the request was refused")));
                        world.unproven(rng, "/api/v1/connect", &actor, body).await
                    } else {
                        log.push(format!("connect of {who} at {date}"));
                        let done = world.request(rng, "/api/v1/connect", &actor, body).await.map(|_| ());
                        match local.get(&who) {
                            Some((last, _)) if *last > date => dead.extend(marks.drain(..).map(|mark| (mark, "there is a newer registration"))),
                            _ => if let Some((_, old)) = local.insert(who, (date, marks)) {
                                dead.extend(old.into_iter().map(|mark| (mark, "the registration was replaced")));
                            }
                        }
                        done
                    }
                }
                65..=74 => {
                    let info = info_with(rng, &mut marks);
                    let home = Party::new(rng);
                    let address = marker(rng);
                    marks.push(address.clone());
                    world.date += 10;
                    let date = if rng.chance(25) { world.date - 1_000_000 } else { world.date };
                    let client = r::client_json(&actor.raw, date, &home.public, &info);
                    marks.push(client["certificate"]["sign"].as_str().unwrap_or("no sign in a certificate").to_string());
                    log.push(format!("announcement of {who} at {date}"));
                    let announcer = if rng.bool() { actor.clone() } else { Party::new(rng) };
                    let done = world.request(rng, "/api/v1/announce", &announcer, json!({ "announce": "client", "client": client, "server": r::server_json(&home.public, &address) })).await.map(|_| ());
                    match remote.get(&who) {
                        Some((last, _)) if *last > date => dead.extend(marks.drain(..).map(|mark| (mark, "there is a newer announcement"))),
                        _ => if let Some((_, old)) = remote.insert(who, (date, marks)) {
                            dead.extend(old.into_iter().map(|mark| (mark, "the announcement was replaced")));
                        }
                    }
                    done
                }
                75..=80 => {
                    let address = marker(rng);
                    log.push(format!("announcement of the server {who}"));
                    let done = world.request(rng, "/api/v1/announce", &actor, json!({ "announce": "server", "server": r::server_json(&actor.public, &address) })).await.map(|_| ());
                    if let Some(old) = servers.insert(who, vec![address]) {
                        dead.extend(old.into_iter().map(|mark| (mark, "the server's record was replaced")));
                    }
                    done
                }
                81..=87 => {
                    log.push(format!("disconnect of {who}"));
                    let done = world.request(rng, "/api/v1/disconnect", &actor, json!({})).await.map(|_| ());
                    let gone = local.remove(&who).map(|x| x.1).into_iter().chain(remote.remove(&who).map(|x| x.1)).chain(servers.remove(&who)).flatten();
                    dead.extend(gone.map(|mark| (mark, "the client was disconnected")));
                    done
                }
                88..=97 => {
                    let stranger = Party::new(rng);
                    read = Some(tree(&world.host.dir));
                    match rng.below(4) {
                        0 => {
                            let channel = marker(rng);
                            log.push("poll of an unknown channel".into());
                            dead.push((channel.clone(), "the channel was never written"));
                            let poller = if rng.bool() { &actor } else { &stranger };
                            world.request(rng, "/api/v1/poll", poller, json!({ "channel": channel, "limit": null })).await.map(|_| ())
                        }
                        1 => {
                            log.push("lookup".into());
                            let target = if rng.bool() { &actor } else { &stranger };
                            let target = target.b64.clone();
                            world.request(rng, "/api/v1/lookup", &stranger, json!({ "public_key": target, "type": null })).await.map(|_| ())
                        }
                        2 => {
                            log.push("lists".into());
                            for path in ["/api/v1/clients", "/api/v1/servers", "/api/v1/info"] {
                                let _ = world.net.raw("h", "GET", path, None).await;
                            }
                            Ok(())
                        }
                        _ => {
                            log.push("poll of somebody without messages".into());
                            world.request(rng, "/api/v1/poll", &stranger, json!({ "channel": channels[channel], "limit": 3 })).await.map(|_| ())
                        }
                    }
                }
                _ => {
                    log.push("restart".into());
                    let net = world.net.clone();
                    world.host.restart(&net).await;
                    Ok(())
                }
            };

            // what the requests do is for other checks to judge
            if let Err(what) = outcome {
                job.ctx.count("operations with another outcome", 1);
                job.ctx.sample("another outcome", || json!({ "log": log, "what": what }));
                break;
            }
            if dead.len() > known {
                job.ctx.observe(&(job.index, log.len(), dead.len()));
                job.ctx.count("strings that had to go", (dead.len() - known) as u64);
            }
            if let Some((file, text, why)) = settled(job.ctx, || found(&world.host.dir, &dead)).await {
                job.fail(format!("the storage keeps something although {why}"), json!({ "file": file, "string": text, "history": log }));
                break;
            }
            if let Some(before) = read {
                let changed = settled(job.ctx, || {
                    let after = tree(&world.host.dir);
                    if after == before { None } else { Some(after.keys().filter(|name| after.get(*name) != before.get(*name)).cloned().collect::<Vec<_>>()) }
                }).await;
                job.ctx.count("reading requests compared", 1);
                if let Some(changed) = changed {
                    job.fail("a reading request leaves something in the storage", json!({ "changed": changed, "history": log }));
                    break;
                }
            }
        }

        // how many of the things still needed are there in the clear: shows
        // that the search would find them
        let live: Vec<String> = queues.into_values().flatten().flatten().chain(local.into_values().chain(remote.into_values()).flat_map(|x| x.1)).chain(servers.into_values().flatten()).collect();
        let all = tree(&world.host.dir);
        let seen = live.iter().filter(|mark| all.values().flatten().any(|content| memmem(content, mark.as_bytes()))).count();
        job.ctx.count("strings still needed", live.len() as u64);
        job.ctx.count("strings still needed and found", seen as u64);
        job.ctx.sample("history", || json!(log));
        let _ = std::fs::remove_dir_all(&world.host.dir);
    });
}

fn size(dir: &Path) -> (usize, u64) {
    let all = tree(dir);
    (all.len(), all.values().flatten().map(|content| content.len() as u64).sum())
}

/// The same parties over and over: the storage stays as large as it was.
fn growth(job: &mut Job) {
    let mut rng = job.rng.fork();
    block_on(async {
        let rng = &mut rng;
        let net = Net::new();
        let server = Party::new(rng);
        let host = Host::start(&net, "h", server.secret.clone(), job.ctx.fresh_dir("host")).await;
        let mut world = World { net, host, server, date: 1_700_000_000 };
        let parties = Party::several(rng, 2);
        let home = Party::new(rng);
        let sender = Party::new(rng);
        let per_round = rng.range(3, 9);
        let rounds = 40;
        let mut first = None;
        let served = AtomicU64::new(0);
        let fixed = |rng: &mut Rng| r::info_json("thin", Some(&r::b64(&rng.bytes(12))));
        // every now and then some messages stay for a round
        let leftovers = rng.bool();

        for round in 0..rounds {
            if rng.chance(10) {
                let net = world.net.clone();
                world.host.restart(&net).await;
            }
            for party in &parties {
                let info = fixed(rng);
                world.date += 1;
                let mut done = Vec::new();
                let (at, other) = (r::b64(&rng.bytes(12)), r::b64(&rng.bytes(12)));
                done.push(world.request(rng, "/api/v1/connect", party, json!({ "certificate": r::certificate_json(&party.raw, world.date, &world.server.public), "client": info })).await);
                done.push(world.request(rng, "/api/v1/announce", party, json!({ "announce": "client", "client": r::client_json(&party.raw, world.date, &home.public, &info), "server": r::server_json(&home.public, &at) })).await);
                done.push(world.request(rng, "/api/v1/announce", party, json!({ "announce": "server", "server": r::server_json(&party.public, &other) })).await);
                for _ in 0..per_round {
                    let body = json!({
                        "sender": { "client": r::client_json(&sender.raw, 1, &home.public, &info), "server": r::server_json(&home.public, "home") },
                        "receiver": { "public_key": party.b64 },
                        "channel": "channel",
                        "message": { "content": r::b64(&rng.bytes(30)), "sign": r::b64(&rng.bytes(60)), "encoding": "base64" },
                    });
                    done.push(world.request(rng, "/api/v1/send", &sender, body).await);
                }
                let all = !leftovers || rng.bool() || round == 0 || round + 1 == rounds;
                let limit = if all { None } else { Some(rng.below(per_round)) };
                done.push(world.request(rng, "/api/v1/poll", party, json!({ "channel": "channel", "limit": limit })).await);
                served.fetch_add(done.len() as u64, Ordering::Relaxed);
                if let Some(Err(what)) = done.into_iter().find(Result::is_err) {
                    job.ctx.count("operations with another outcome", 1);
                    job.ctx.sample("another outcome", || json!(what));
                    return;
                }
            }
            if round == 0 {
                first = Some(size(&world.host.dir));
            }
        }
        let (entries, bytes) = first.expect("first round");
        job.ctx.count("requests served", served.load(Ordering::Relaxed));
        job.ctx.observe(&("growth", job.index));
        let late = settled(job.ctx, || {
            let (now, len) = size(&world.host.dir);
            if now > entries + 2 || len > bytes + 1024 { Some((now, len)) } else { None }
        }).await;
        if let Some((now, len)) = late {
            let names: Vec<String> = tree(&world.host.dir).into_keys().take(30).collect();
            job.fail("the storage grows although everything was delivered and the same parties registered", json!({
                "entries": [entries, now], "bytes": [bytes, len], "requests": served.load(Ordering::Relaxed), "names": names,
            }));
        }
        let _ = std::fs::remove_dir_all(&world.host.dir);
    });
}

/// Many at once, some of them giving up: once the queues are empty and the
/// parties gone, so is everything they left.
fn crowd(job: &mut Job) {
    let mut rng = job.rng.fork();
    let dir = job.ctx.fresh_dir("crowd");
    let runtime = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().expect("runtime");
    runtime.block_on(async {
        let rng = &mut rng;
        let inbox = Arc::new(StoredQueueMessagesInbox::new(dir.join("inbox")).await.expect("inbox"));
        let router = Arc::new(GlobalTableRouter::new(dir.join("router")).await.expect("router"));
        let parties = Party::several(rng, 2);
        let home = Party::new(rng);
        let dead: Arc<Mutex<Vec<(String, &'static str)>>> = Default::default();
        let given_up = rng.bool();
        let mut tasks = Vec::new();

        for _ in 0..6 {
            let mut rng = rng.fork();
            let (inbox, router, parties, home, dead) = (inbox.clone(), router.clone(), parties.clone(), home.clone(), dead.clone());
            tasks.push(tokio::spawn(async move {
                for _ in 0..8 {
                    let party = rng.pick(&parties).clone();
                    let patience = if given_up && rng.chance(30) { rng.range(1, 4) } else { u64::MAX };
                    let mut marks = Vec::new();
                    match rng.below(10) {
                        0..=3 => {
                            let message = message_with(&mut rng, &mut marks);
                            let message = Message::from_json(&message).expect("message");
                            dead.lock().unwrap().extend(marks.drain(..).map(|mark| (mark, "every message was delivered")));
                            let sender = gen::sender_record(&mut rng);
                            let _ = abandon(inbox.add_message(sender, party.key.clone(), "channel".into(), message), patience).await;
                        }
                        4..=6 => {
                            let limit = if rng.bool() { None } else { Some(rng.below(3)) };
                            let _ = abandon(inbox.poll_messages(party.key.clone(), "channel".into(), limit), patience).await;
                        }
                        7..=8 => {
                            let info = info_with(&mut rng, &mut marks);
                            let date = rng.below(1000);
                            let client = ClientRecord::from_json(&r::client_json(&party.raw, date, &home.public, &info)).expect("record");
                            dead.lock().unwrap().extend(marks.drain(..).map(|mark| (mark, "the client was disconnected")));
                            if rng.bool() {
                                let _ = abandon(router.index_local_client(client), patience).await;
                            } else {
                                let server = ServerRecord::from_json(&r::server_json(&home.public, "home")).expect("record");
                                let _ = abandon(router.index_remote_client(client, server), patience).await;
                            }
                        }
                        _ => {
                            let _ = abandon(router.disconnect(&party.key), patience).await;
                        }
                    }
                }
            }));
        }
        for task in tasks {
            if let Err(err) = task.await {
                job.ctx.error(format!("a task of the crowd ended: {err}"));
            }
        }

        let dead = dead.lock().unwrap().clone();
        job.ctx.count("strings that had to go", dead.len() as u64);
        job.ctx.count("crowds that gave up at times", given_up as u64);
        job.ctx.observe(&("crowd", job.index, dead.len()));
        // abandoned requests may still be under way
        let start = Instant::now();
        loop {
            for party in &parties {
                let _ = inbox.poll_messages(party.key.clone(), "channel".into(), None).await;
                let _ = router.disconnect(&party.key).await;
            }
            let Some((file, text, why)) = found(&dir, &dead) else { break };
            if start.elapsed() > patience(job.ctx) {
                job.fail(format!("after concurrent requests the storage keeps something although {why}"), json!({ "file": file, "string": text, "given up": given_up }));
                break;
            }
            tokio::time::sleep(Duration::from_millis(20)).await;
        }
    });
    drop(runtime);
    let _ = std::fs::remove_dir_all(&dir);
}

fn open_files() -> u64 {
    std::fs::read_dir("/proc/self/fd").map(|list| list.count() as u64).unwrap_or(0)
}

/// Files and tasks do not stay open either.
fn handles(job: &mut Job) {
    let mut rng = job.rng.fork();
    let dir = job.ctx.fresh_dir("handles");
    let runtime = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().expect("runtime");
    runtime.block_on(async {
        let rng = &mut rng;
        let net = Net::new();
        let server = Party::new(rng);
        let host = Host::start(&net, "h", server.secret.clone(), dir.clone()).await;
        let world = World { net, host, server, date: 1_700_000_000 };
        let party = Party::new(rng);
        let home = Party::new(rng);
        let metrics = tokio::runtime::Handle::current().metrics();
        let mut before = (0, 0);
        let rounds = 60;
        for round in 0..rounds {
            if round == 2 {
                before = (open_files(), metrics.num_alive_tasks() as u64);
            }
            let info = r::info_json("thin", None);
            let date = world.date + round;
            let _ = world.request(rng, "/api/v1/connect", &party, json!({ "certificate": r::certificate_json(&party.raw, date, &world.server.public), "client": info })).await;
            let _ = world.request(rng, "/api/v1/announce", &party, json!({ "announce": "client", "client": r::client_json(&party.raw, date, &home.public, &info), "server": r::server_json(&home.public, "home") })).await;
            for _ in 0..2 {
                let body = json!({
                    "sender": { "client": r::client_json(&party.raw, 1, &home.public, &info), "server": r::server_json(&home.public, "home") },
                    "receiver": { "public_key": party.b64 }, "channel": "channel",
                    "message": { "content": "content", "sign": "sign", "encoding": "base64" },
                });
                let _ = world.request(rng, "/api/v1/send", &party, body).await;
            }
            let _ = world.request(rng, "/api/v1/poll", &party, json!({ "channel": "channel", "limit": 1 })).await;
            let _ = world.request(rng, "/api/v1/poll", &party, json!({ "channel": "channel", "limit": null })).await;
            let _ = world.request(rng, "/api/v1/poll", &party, json!({ "channel": "nothing", "limit": null })).await;
            let _ = world.request(rng, "/api/v1/lookup", &party, json!({ "public_key": party.b64, "type": null })).await;
            let _ = world.request(rng, "/api/v1/lookup", &party, json!({ "public_key": home.b64, "type": null })).await;
            for path in ["/api/v1/clients", "/api/v1/servers", "/api/v1/info"] {
                let _ = world.net.raw("h", "GET", path, None).await;
            }
            // one found among others
            let router = world.host.driver.router();
            let _ = router.remote_clients().await;
            let _ = router.lookup_server(&home.key).await;
            if round % 5 == 0 {
                let _ = world.request(rng, "/api/v1/disconnect", &party, json!({})).await;
            }
        }
        job.ctx.observe(&("handles", job.index));
        job.ctx.count("requests counted for open files and tasks", rounds * 14);
        let late = settled(job.ctx, || {
            let now = (open_files(), metrics.num_alive_tasks() as u64);
            if now.0 > before.0 + 16 || now.1 > before.1 + 16 { Some(now) } else { None }
        }).await;
        if let Some(now) = late {
            job.fail("requests leave files or tasks open", json!({ "open files": [before.0, now.0], "tasks": [before.1, now.1] }));
        }
    });
    drop(runtime);
    let _ = std::fs::remove_dir_all(&dir);
}

pub fn c29(ctx: &Ctx) {
    ctx.cases_on(1, "handles", ctx.scale(2, 10), handles);
    ctx.cases("history", ctx.scale(1_500, 40_000), history);
    ctx.cases("crowd", ctx.scale(200, 4_000), crowd);
    ctx.cases("growth", ctx.scale(40, 600), growth);

    ctx.require("messages delivered", 500);
    ctx.require("strings that had to go", 5_000);
    ctx.require("reading requests compared", 500);
    ctx.require("requests served", 2_000);
}

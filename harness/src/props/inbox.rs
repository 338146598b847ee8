//! C15, C16, C18: the stored inbox as a queue - sequentially, concurrently,
//! and under hostile channel names.

use std::collections::{BTreeMap, BTreeSet, HashSet, VecDeque};
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};

use hyperborealib::prelude::*;
use hyperborealib::rest_api::types::MessageInfo;
use serde_json::{json, Value as Json};

use crate::ctx::{block_on, hash_of, Ctx, Job};
use crate::gen::{self, Rng};
use crate::net::{tree, Net, MemServer, RealServer};
use crate::props::server::{seed, success, Party};
use crate::refimpl as r;
use crate::shim;

fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_secs()).unwrap_or(0)
}

/// A message whose content names it.
fn numbered(id: u64, encoding: MessageEncoding) -> Message {
    Message::new(format!("m{id}"), format!("s{id}"), encoding)
}

fn id_of(info: &MessageInfo) -> Option<u64> {
    info.message.content.strip_prefix('m')?.parse().ok()
}

// ------------------------------------------------------------------- C15

#[derive(Clone)]
struct Sent {
    sender: Json,
    message: Json,
    earliest: u64,
    latest: u64,
}

/// The two ways to the queue: the store itself, and a server's endpoints.
enum Way {
    Store(StoredQueueMessagesInbox),
    Server { net: Net, server: Party, secret: SecretKey },
}

struct Bench {
    way: Way,
    dir: std::path::PathBuf,
    receivers: Vec<Party>,
    senders: Vec<Sender>,
}

impl Bench {
    async fn open(&mut self) -> Result<(), String> {
        let dir = self.dir.clone();
        match &mut self.way {
            Way::Store(store) => *store = StoredQueueMessagesInbox::new(dir.join("inbox")).await.map_err(|e| e.to_string())?,
            Way::Server { net, secret, .. } => {
                let driver = crate::net::driver(&dir, secret, "h").await.map_err(|e| e.to_string())?;
                let real: RealServer = ServerMiddleware::new(net.client(200), MemServer::default(), driver).await;
                net.put("h", real.http_server().clone());
            }
        }
        Ok(())
    }

    async fn send(&self, rng: &mut Rng, sender: &Sender, receiver: &Party, channel: &str, message: &Message) -> Result<(), String> {
        match &self.way {
            Way::Store(store) => store.add_message(sender.clone(), receiver.key.clone(), channel.to_string(), message.clone()).await.map_err(|e| e.to_string()),
            Way::Server { net, server, .. } => {
                let seed = seed(rng);
                let actor = Party::new(rng);
                let body = json!({
                    "sender": sender.to_json().map_err(|e| e.to_string())?,
                    "receiver": { "public_key": receiver.b64 },
                    "channel": channel,
                    "message": message.to_json().map_err(|e| e.to_string())?,
                });
                let reply = net.post("h", "/api/v1/send", &r::request_json(&actor.raw, seed, body)).await;
                success(&reply, server, seed).map(|_| ())
            }
        }
    }

    async fn poll(&self, rng: &mut Rng, receiver: &Party, channel: &str, limit: Option<u64>) -> Result<(Vec<MessageInfo>, u64), String> {
        match &self.way {
            Way::Store(store) => store.poll_messages(receiver.key.clone(), channel.to_string(), limit).await.map_err(|e| e.to_string()),
            Way::Server { net, server, .. } => {
                let seed = seed(rng);
                let reply = net.post("h", "/api/v1/poll", &r::request_json(&receiver.raw, seed, json!({ "channel": channel, "limit": limit }))).await;
                let response = success(&reply, server, seed)?;
                let messages = response["messages"].as_array().ok_or_else(|| response.to_string())?
                    .iter().map(MessageInfo::from_json).collect::<Result<Vec<_>, _>>().map_err(|e| e.to_string())?;
                Ok((messages, response["remaining"].as_u64().ok_or_else(|| response.to_string())?))
            }
        }
    }
}

async fn bench(ctx: &Ctx, rng: &mut Rng, server: bool, receivers: usize) -> Bench {
    let dir = ctx.fresh_dir("inbox");
    let way = if server {
        let party = Party::new(rng);
        Way::Server { net: Net::new(), secret: party.secret.clone(), server: party }
    } else {
        Way::Store(StoredQueueMessagesInbox::new(dir.join("inbox")).await.expect("inbox"))
    };
    let mut bench = Bench {
        way, dir,
        receivers: Party::several(rng, receivers),
        senders: (0..3).map(|_| gen::sender_record(rng)).collect(),
    };
    bench.open().await.expect("open");
    bench
}

fn ordinary_channel(rng: &mut Rng) -> String {
    match rng.below(6) {
        0 => gen::word(rng, 12),
        1 => (*rng.pick(&["default channel", "hyperborea", "index", "0", "12345678901234567890", "messages v2", "канал", "频道", "a-b_c", "A", "a"])).to_string(),
        2 => format!("{}-{}", gen::word(rng, 5), rng.below(3)),
        3 => format!("{} {}", gen::word(rng, 5), gen::word(rng, 5)),
        4 => rng.u64().to_string(),
        _ => gen::word(rng, 40),
    }
}

/// Compare one poll with the reference queue and take the messages from it.
fn judge_poll(queue: &mut VecDeque<Sent>, channel: &str, limit: Option<u64>, got: &[MessageInfo], remaining: u64) -> Result<(), String> {
    let want = limit.unwrap_or(u64::MAX).min(queue.len() as u64) as usize;
    if got.len() != want {
        return Err(format!("{} messages instead of {want}", got.len()));
    }
    for (i, info) in got.iter().enumerate() {
        let sent = queue.pop_front().unwrap();
        if info.message.to_json().ok().as_ref() != Some(&sent.message) {
            return Err(format!("message {i} is not the one sent, or not in its order: {:?}", info.message));
        }
        if info.sender.to_json().ok().as_ref() != Some(&sent.sender) {
            return Err(format!("message {i} has another sender"));
        }
        if info.channel != channel {
            return Err(format!("message {i} is of another channel: {:?}", info.channel));
        }
        if info.received_at < sent.earliest || info.received_at > sent.latest {
            return Err(format!("message {i} was not received at {}, but {}..{}", info.received_at, sent.earliest, sent.latest));
        }
    }
    if remaining != queue.len() as u64 {
        return Err(format!("{remaining} remaining instead of {}", queue.len()));
    }
    Ok(())
}

fn poll_limit(rng: &mut Rng, queued: usize) -> Option<u64> {
    match rng.below(12) {
        0 | 1 => None,
        2 => Some(0),
        3 | 4 => Some(1),
        5 => Some(queued as u64),
        6 => Some(queued as u64 + 1),
        7 => Some((queued as u64).saturating_sub(1)),
        8 => Some(u64::MAX),
        9 => Some(1 << 32),
        _ => Some(rng.below(queued as u64 + 3)),
    }
}

fn c15_case(job: &mut Job, server: bool, steps: u64) {
    let mut rng = job.rng.fork();
    block_on(async {
        let rng = &mut rng;
        let receivers = rng.range(1, 4) as usize;
        let mut bench = bench(job.ctx, rng, server, receivers).await;
        let mut channels: Vec<String> = (0..rng.range(1, 4)).map(|_| ordinary_channel(rng)).collect();
        channels.dedup();
        let mut queues: BTreeMap<(usize, String), VecDeque<Sent>> = BTreeMap::new();
        let mut next = 0u64;
        let mut history: Vec<String> = Vec::new();
        let burst = rng.range(1, 12);

        for step in 0..steps {
            let receiver = rng.below(receivers as u64) as usize;
            let channel = rng.pick(&channels).clone();
            let party = bench.receivers[receiver].clone();
            match rng.below(100) {
                0..=49 => {
                    for _ in 0..rng.range(1, burst) {
                        let sender = rng.pick(&bench.senders).clone();
                        // now and then the very same message again
                        let message = match rng.below(4) {
                            0 => numbered(next.saturating_sub(rng.below(3)), gen::encoding(rng)),
                            1 => gen::raw_message(rng),
                            _ => numbered(next, gen::encoding(rng)),
                        };
                        next += 1;
                        let earliest = now();
                        let sent = bench.send(rng, &sender, &party, &channel, &message).await;
                        let latest = now();
                        history.push(format!("send {receiver} {channel:?}"));
                        if let Err(err) = sent {
                            job.fail("a send to an ordinary queue fails", json!({ "channel": channel, "error": err, "history": history }));
                            continue;
                        }
                        queues.entry((receiver, channel.clone())).or_default().push_back(Sent {
                            sender: sender.to_json().unwrap_or_default(),
                            message: message.to_json().unwrap_or_default(),
                            earliest, latest,
                        });
                        job.ctx.count("messages sent", 1);
                    }
                }
                50..=93 => {
                    let queue = queues.entry((receiver, channel.clone())).or_default();
                    let before = queue.len();
                    let limit = poll_limit(rng, before);
                    history.push(format!("poll {receiver} {channel:?} {limit:?}"));
                    match bench.poll(rng, &party, &channel, limit).await {
                        Ok((messages, remaining)) => {
                            job.ctx.observe(&(job.index, step, before, limit, messages.len()));
                            job.ctx.count("messages polled", messages.len() as u64);
                            job.ctx.count(if before == 0 { "polls of empty queues" } else { "polls of filled queues" }, 1);
                            if remaining > 0 && !messages.is_empty() {
                                job.ctx.count("polls leaving messages", 1);
                            }
                            if let Err(what) = judge_poll(queue, &channel, limit, &messages, remaining) {
                                job.fail("a poll does not answer what the queue holds", json!({
                                    "problem": what, "queued": before, "limit": limit, "channel": channel, "history": history,
                                }));
                                return;
                            }
                        }
                        Err(err) => {
                            job.fail("a poll fails", json!({ "error": err, "channel": channel, "history": history }));
                            return;
                        }
                    }
                }
                _ => {
                    history.push("reopen".into());
                    job.ctx.count("reopenings", 1);
                    if let Err(err) = bench.open().await {
                        job.fail("the inbox cannot be reopened", json!({ "error": err, "history": history }));
                        return;
                    }
                }
            }
        }

        // every queue still holds exactly what was not polled
        let _ = bench.open().await;
        for ((receiver, channel), queue) in &mut queues {
            let party = bench.receivers[*receiver].clone();
            match bench.poll(rng, &party, channel, None).await {
                Ok((messages, remaining)) => {
                    job.ctx.observe(&(job.index, "drain", receiver, channel, messages.len()));
                    if let Err(what) = judge_poll(queue, channel, None, &messages, remaining) {
                        job.fail("a queue does not hold exactly what was sent and not polled", json!({ "problem": what, "channel": channel, "history": history }));
                    }
                }
                Err(err) => job.fail("a poll fails", json!({ "error": err, "channel": channel, "history": history })),
            }
        }
        job.ctx.sample(if server { "history through a server" } else { "history" }, || json!(history));
        let _ = std::fs::remove_dir_all(&bench.dir);
    });
}

/// Long queues: the index crosses every buffer size in use.
fn c15_long(job: &mut Job) {
    let mut rng = job.rng.fork();
    block_on(async {
        let rng = &mut rng;
        let bench = bench(job.ctx, rng, false, 1).await;
        let total = match if job.index == 0 { 2 } else { rng.below(3) } {
            0 => rng.range(500, 530),
            1 => rng.range(1000, 1100),
            _ if job.index == 0 => 4200,
            _ => rng.range(1, 1500),
        };
        let party = bench.receivers[0].clone();
        let sender = bench.senders[0].clone();
        let mut queue = VecDeque::new();
        for id in 0..total {
            let message = numbered(id, MessageEncoding::default());
            let earliest = now();
            if let Err(err) = bench.send(rng, &sender, &party, "long", &message).await {
                job.fail("a send to an ordinary queue fails", json!({ "error": err, "queued": id }));
                return;
            }
            queue.push_back(Sent { sender: sender.to_json().unwrap_or_default(), message: message.to_json().unwrap_or_default(), earliest, latest: now() });
        }
        job.ctx.count("messages sent", total);
        while !queue.is_empty() {
            let before = queue.len();
            let limit = match rng.below(5) {
                0 => Some(rng.range(1, 600)),
                1 => None,
                2 => Some(512),
                _ => Some(rng.range(1, 100)),
            };
            match bench.poll(rng, &party, "long", limit).await {
                Ok((messages, remaining)) => {
                    job.ctx.observe(&("long", job.index, before, limit));
                    job.ctx.count("messages polled", messages.len() as u64);
                    job.ctx.count("polls of queues longer than 512", (before > 512) as u64);
                    if let Err(what) = judge_poll(&mut queue, "long", limit, &messages, remaining) {
                        job.fail("a poll does not answer what the queue holds", json!({ "problem": what, "queued": before, "limit": limit }));
                        return;
                    }
                }
                Err(err) => {
                    job.fail("a poll fails", json!({ "error": err, "queued": before }));
                    return;
                }
            }
        }
        let _ = std::fs::remove_dir_all(&bench.dir);
    });
}

pub fn c15(ctx: &Ctx) {
    ctx.cases("history", ctx.scale(400, 20_000), |job| c15_case(job, false, 40));
    ctx.cases("server", ctx.scale(120, 6_000), |job| c15_case(job, true, 30));
    ctx.cases("long", ctx.scale(24, 400), c15_long);
    for (name, min) in [
        ("messages sent", 10_000), ("messages polled", 5_000), ("polls of empty queues", 200), ("polls of filled queues", 2_000),
        ("polls leaving messages", 500), ("reopenings", 200), ("polls of queues longer than 512", 10),
    ] {
        ctx.require(name, min);
    }
}

// ------------------------------------------------------------------- C16

#[derive(Clone, Debug)]
enum Op {
    Send(u64),
    Poll { limit: Option<u64>, got: Vec<u64>, remaining: u64 },
}

#[derive(Clone, Debug)]
struct Event {
    thread: usize,
    call: u64,
    ret: u64,
    op: Op,
}

/// Wing-Gong search: is there an order of the operations, consistent with
/// their real-time order, in which a FIFO queue gives these results?
fn linearizable(events: &[Event]) -> Option<bool> {
    fn search(events: &[Event], done: u32, queue: &VecDeque<u64>, seen: &mut HashSet<u64>, budget: &mut u64) -> Option<bool> {
        if done.count_ones() as usize == events.len() {
            return Some(true);
        }
        if !seen.insert(hash_of(&(done, queue))) {
            return Some(false);
        }
        *budget = budget.checked_sub(1)?;
        // an operation may come next if no pending one returned before its call
        let first = events.iter().enumerate().filter(|(i, _)| done & 1 << i == 0).map(|(_, e)| e.ret).min()?;
        for (i, event) in events.iter().enumerate() {
            if done & 1 << i != 0 || event.call > first {
                continue;
            }
            let mut queue = queue.clone();
            let fits = match &event.op {
                Op::Send(id) => {
                    queue.push_back(*id);
                    true
                }
                Op::Poll { limit, got, remaining } => {
                    let n = limit.unwrap_or(u64::MAX).min(queue.len() as u64) as usize;
                    let taken: Vec<u64> = queue.drain(..n).collect();
                    taken == *got && queue.len() as u64 == *remaining
                }
            };
            if fits && search(events, done | 1 << i, &queue, seen, budget)? {
                return Some(true);
            }
        }
        Some(false)
    }
    search(events, 0, &VecDeque::new(), &mut HashSet::new(), &mut 400_000)
}

/// The history's shape: which operations overlap and what they returned.
fn shape(events: &[Event]) -> u64 {
    let mut points: Vec<(u64, usize, bool)> = events.iter().enumerate().flat_map(|(i, e)| [(e.call, i, true), (e.ret, i, false)]).collect();
    points.sort();
    hash_of(&points.into_iter().map(|(_, i, call)| (events[i].thread, call, match &events[i].op {
        Op::Send(_) => None,
        Op::Poll { limit, got, remaining } => Some((*limit, got.len(), *remaining)),
    })).collect::<Vec<_>>())
}

fn c16_small(job: &mut Job) {
    let mut rng = job.rng.fork();
    let rng = &mut rng;
    let dir = job.ctx.fresh_dir("inbox");
    let threads = rng.range(2, 4) as usize;
    let inbox = block_on(StoredQueueMessagesInbox::new(&dir)).expect("inbox");
    let key = gen::secret(rng).public_key();
    let sender = gen::sender_record(rng);
    let queues = if rng.chance(70) { 1 } else { 2 };
    let clock = AtomicU64::new(0);
    let next = AtomicU64::new(0);
    let barrier = Barrier::new(threads);
    let events: Mutex<Vec<(usize, Event)>> = Mutex::default();
    let problems: Mutex<Vec<String>> = Mutex::default();

    // every thread's operations: (queue, send or poll with a limit)
    let scripts: Vec<Vec<(usize, Option<Option<u64>>)>> = (0..threads).map(|t| {
        (0..rng.range(2, if threads == 2 { 5 } else { 3 })).map(|_| {
            let queue = rng.below(queues) as usize;
            let send = rng.chance(if t == 0 { 80 } else { 50 });
            (queue, if send { None } else { Some(match rng.below(7) { 0 | 1 => None, 2 => Some(0), n => Some(n - 2) }) })
        }).collect()
    }).collect();

    std::thread::scope(|scope| {
        for (t, script) in scripts.iter().enumerate() {
            // its own handle for every thread, or one for all of them
            let inbox = if t % 2 == 0 { inbox.clone() } else { block_on(StoredQueueMessagesInbox::new(dir.clone())).expect("inbox") };
            let (clock, next, barrier, events, problems, key, sender) = (&clock, &next, &barrier, &events, &problems, &key, &sender);
            scope.spawn(move || block_on(async move {
                barrier.wait();
                for (queue, op) in script {
                    let channel = format!("q{queue}");
                    match op {
                        None => {
                            let id = next.fetch_add(1, Ordering::SeqCst);
                            let call = clock.fetch_add(1, Ordering::SeqCst);
                            let result = inbox.add_message(sender.clone(), key.clone(), channel, numbered(id, MessageEncoding::default())).await;
                            let ret = clock.fetch_add(1, Ordering::SeqCst);
                            match result {
                                Ok(()) => events.lock().unwrap().push((*queue, Event { thread: t, call, ret, op: Op::Send(id) })),
                                Err(err) => problems.lock().unwrap().push(format!("a send fails: {err}")),
                            }
                        }
                        Some(limit) => {
                            let call = clock.fetch_add(1, Ordering::SeqCst);
                            let result = inbox.poll_messages(key.clone(), channel, *limit).await;
                            let ret = clock.fetch_add(1, Ordering::SeqCst);
                            match result {
                                Ok((messages, remaining)) => {
                                    let got = messages.iter().map(|m| id_of(m).unwrap_or(u64::MAX)).collect();
                                    events.lock().unwrap().push((*queue, Event { thread: t, call, ret, op: Op::Poll { limit: *limit, got, remaining } }));
                                }
                                Err(err) => problems.lock().unwrap().push(format!("a poll fails: {err}")),
                            }
                        }
                    }
                }
            }));
        }
    });

    // what is left is part of the history
    let mut by_queue: BTreeMap<usize, Vec<Event>> = BTreeMap::new();
    for (queue, event) in events.into_inner().unwrap() {
        by_queue.entry(queue).or_default().push(event);
    }
    for problem in problems.into_inner().unwrap() {
        job.fail("an operation fails because of others running at the same time", json!({ "error": problem }));
    }
    for (queue, events) in &mut by_queue {
        // its length, and what is in it
        for limit in [Some(0), None] {
            match block_on(inbox.poll_messages(key.clone(), format!("q{queue}"), limit)) {
                Ok((messages, remaining)) => {
                    let call = clock.fetch_add(1, Ordering::SeqCst);
                    let ret = clock.fetch_add(1, Ordering::SeqCst);
                    let got = messages.iter().map(|m| id_of(m).unwrap_or(u64::MAX)).collect();
                    events.push(Event { thread: 99, call, ret, op: Op::Poll { limit, got, remaining } });
                }
                Err(err) => job.fail("a poll fails", json!({ "error": err.to_string() })),
            }
        }
        events.sort_by_key(|e| e.call);
        let overlapping = events.iter().enumerate().any(|(i, a)| events[..i].iter().any(|b| b.ret > a.call));
        if overlapping {
            job.ctx.count("histories with overlapping operations", 1);
            job.ctx.observe(&shape(events));
        }
        job.ctx.count("operations recorded", events.len() as u64);
        match linearizable(events) {
            Some(true) => job.ctx.count("histories linearized", 1),
            Some(false) => job.fail("a concurrent history of one queue is not linearizable", json!({ "events": events.iter().map(|e| format!("{e:?}")).collect::<Vec<_>>() })),
            None => job.ctx.count("checker gave up", 1),
        }
    }
    job.ctx.sample("history", || json!(by_queue.values().flatten().map(|e| format!("{e:?}")).collect::<Vec<_>>()));
    let _ = std::fs::remove_dir_all(&dir);
}

struct Polled {
    call: u64,
    ret: u64,
    queue: usize,
    ids: Vec<u64>,
}

fn c16_large(job: &mut Job) {
    let mut rng = job.rng.fork();
    let runtime = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().expect("runtime");
    runtime.block_on(async {
        let rng = &mut rng;
        let server = rng.bool();
        let mut bench = bench(job.ctx, rng, server, 2).await;
        let _ = bench.open().await;
        let bench = Arc::new(bench);
        let queues: Vec<(usize, &'static str)> = vec![(0, "a"), (0, "b"), (1, "a")];
        let senders = rng.range(2, 5);
        let each = rng.range(8, 25);
        let clock = Arc::new(AtomicU64::new(0));
        // acknowledged: id -> (queue, call, return); aborted: id -> queue
        let acked: Arc<Mutex<BTreeMap<u64, (usize, u64, u64)>>> = Arc::default();
        let aborted: Arc<Mutex<BTreeMap<u64, usize>>> = Arc::default();
        let polled: Arc<Mutex<Vec<Polled>>> = Arc::default();
        let problems: Arc<Mutex<Vec<String>>> = Arc::default();
        let sending = Arc::new(AtomicU64::new(senders));

        let mut tasks = Vec::new();
        for s in 0..senders {
            let mut rng = rng.fork();
            let (bench, clock, acked, aborted, problems, sending, queues) = (bench.clone(), clock.clone(), acked.clone(), aborted.clone(), problems.clone(), sending.clone(), queues.clone());
            tasks.push(tokio::spawn(async move {
                for n in 0..each {
                    let id = s * 1000 + n;
                    let queue = rng.below(queues.len() as u64) as usize;
                    let (receiver, channel) = queues[queue];
                    let sender = bench.senders[s as usize % bench.senders.len()].clone();
                    let party = bench.receivers[receiver].clone();
                    let message = numbered(id, MessageEncoding::default());
                    if rng.chance(10) {
                        // the caller goes away in the middle
                        aborted.lock().unwrap().insert(id, queue);
                        if rng.bool() {
                            let patience = std::time::Duration::from_micros(rng.below(400));
                            let _ = tokio::time::timeout(patience, bench.send(&mut rng, &sender, &party, channel, &message)).await;
                        } else {
                            let patience = *rng.pick(&[1, 1, 2, 3, 5]);
                            let _ = crate::ctx::abandon(bench.send(&mut rng, &sender, &party, channel, &message), patience).await;
                        }
                        continue;
                    }
                    let call = clock.fetch_add(1, Ordering::SeqCst);
                    let result = bench.send(&mut rng, &sender, &party, channel, &message).await;
                    let ret = clock.fetch_add(1, Ordering::SeqCst);
                    match result {
                        Ok(()) => { acked.lock().unwrap().insert(id, (queue, call, ret)); }
                        Err(err) => problems.lock().unwrap().push(format!("a send fails: {err}")),
                    }
                }
                sending.fetch_sub(1, Ordering::SeqCst);
            }));
        }
        for _ in 0..rng.range(2, 4) {
            let mut rng = rng.fork();
            let (bench, clock, polled, problems, sending, queues) = (bench.clone(), clock.clone(), polled.clone(), problems.clone(), sending.clone(), queues.clone());
            tasks.push(tokio::spawn(async move {
                while sending.load(Ordering::SeqCst) > 0 {
                    let queue = rng.below(queues.len() as u64) as usize;
                    let (receiver, channel) = queues[queue];
                    let party = bench.receivers[receiver].clone();
                    let limit = match rng.below(3) { 0 => None, n => Some(n * 2 - 1) };
                    let call = clock.fetch_add(1, Ordering::SeqCst);
                    let result = bench.poll(&mut rng, &party, channel, limit).await;
                    let ret = clock.fetch_add(1, Ordering::SeqCst);
                    match result {
                        Ok((messages, _)) => polled.lock().unwrap().push(Polled { call, ret, queue, ids: messages.iter().map(|m| id_of(m).unwrap_or(u64::MAX)).collect() }),
                        Err(err) => problems.lock().unwrap().push(format!("a poll fails: {err}")),
                    }
                }
            }));
        }
        for task in tasks {
            if let Err(err) = task.await {
                if err.is_panic() {
                    job.ctx.count("task panics", 1);
                }
            }
        }
        // let abandoned sends come to their end, then take what is left
        for round in 0..2 {
            if round > 0 {
                tokio::time::sleep(std::time::Duration::from_millis(30)).await;
            }
            for (queue, (receiver, channel)) in queues.iter().enumerate() {
                let call = clock.fetch_add(1, Ordering::SeqCst);
                match bench.poll(rng, &bench.receivers[*receiver], channel, None).await {
                    Ok((messages, remaining)) => {
                        let ret = clock.fetch_add(1, Ordering::SeqCst);
                        polled.lock().unwrap().push(Polled { call, ret, queue, ids: messages.iter().map(|m| id_of(m).unwrap_or(u64::MAX)).collect() });
                        job.check(remaining == 0, "messages remain after everything was polled", || json!({ "remaining": remaining }));
                    }
                    Err(err) => job.fail("a poll fails", json!({ "error": err })),
                }
            }
        }

        for problem in problems.lock().unwrap().drain(..) {
            job.fail("an operation fails because of others running at the same time", json!({ "error": problem }));
        }
        let acked = acked.lock().unwrap();
        let aborted = aborted.lock().unwrap();
        let mut polled = polled.lock().unwrap();
        polled.sort_by_key(|p| p.call);
        job.ctx.count("messages acknowledged", acked.len() as u64);
        job.ctx.count("sends abandoned", aborted.len() as u64);
        job.ctx.count("stress histories", 1);

        let mut seen: BTreeMap<u64, usize> = BTreeMap::new();
        for (i, poll) in polled.iter().enumerate() {
            for id in &poll.ids {
                if let Some(other) = seen.insert(*id, i) {
                    job.fail("a message was returned by two polls", json!({ "id": id, "polls": [other, i] }));
                }
                let home = acked.get(id).map(|(queue, _, _)| *queue).or(aborted.get(id).copied());
                job.check(home == Some(poll.queue), "a poll returned a message of another queue, or one never sent", || json!({ "id": id, "sent to": home, "polled from": poll.queue }));
                if let Some((_, call, _)) = acked.get(id) {
                    job.check(*call < poll.ret, "a message was polled before it was sent", || json!({ "id": id }));
                }
            }
            job.ctx.observe(&("large", job.index, i, &poll.ids));
        }
        for (id, (queue, _, sent)) in acked.iter() {
            match seen.get(id) {
                None => job.fail("an acknowledged message was lost", json!({ "id": id, "queue": queue, "server": server })),
                Some(i) => {
                    // no earlier poll may have overlooked it: an unlimited
                    // poll that began after the acknowledgement and ended
                    // before the one that returned it began
                    let missed = polled[..*i].iter().find(|p| p.queue == *queue && p.call > *sent && p.ret < polled[*i].call && p.ids.is_empty());
                    if let Some(p) = missed {
                        job.fail("a poll found nothing although an acknowledged message was queued", json!({ "id": id, "sent": sent, "poll": [p.call, p.ret] }));
                    }
                }
            }
        }
        // order: acknowledged before the other was sent means delivered first
        let mut per_sender: BTreeMap<(u64, usize), Vec<u64>> = BTreeMap::new();
        for (id, (queue, ..)) in acked.iter() {
            per_sender.entry((id / 1000, *queue)).or_default().push(*id);
        }
        for ids in per_sender.values() {
            for pair in ids.windows(2) {
                let (Some(a), Some(b)) = (seen.get(&pair[0]), seen.get(&pair[1])) else { continue };
                let reordered = if a == b {
                    let at = |id| polled[*a].ids.iter().position(|x| x == id);
                    at(&pair[0]) > at(&pair[1])
                } else {
                    polled[*b].ret < polled[*a].call
                };
                job.check(!reordered, "messages were delivered out of their sending order", || json!({ "first": pair[0], "second": pair[1] }));
            }
        }
        let _ = std::fs::remove_dir_all(&bench.dir);
    });
}

pub fn c16(ctx: &Ctx) {
    if !shim::loaded() {
        ctx.error("the file-system shim is not loaded");
        return;
    }
    shim::delays(&ctx.scratch, 250, 400, ctx.seed);
    ctx.cases("small", ctx.scale(1_500, 100_000), c16_small);
    ctx.cases_on(3, "large", ctx.scale(60, 3_000), c16_large);
    ctx.count("file-system calls delayed or watched", shim::get(0).max(0) as u64);
    shim::set(shim::OFF);
    ctx.require("histories with overlapping operations", 500);
    ctx.require("histories linearized", 800);
    ctx.require("messages acknowledged", 1_500);
    ctx.require("file-system calls delayed or watched", 5_000);
}

// ------------------------------------------------------------------- C18

/// Names that try to leave their place, or to be taken for one another.
fn hostile_channel(rng: &mut Rng, receivers: &[Party], outside: &Path, ordinary: &[String]) -> String {
    let other = rng.pick(receivers).b64.clone();
    let plain = rng.pick(ordinary).clone();
    let up = "../".repeat(rng.range(1, 6) as usize);
    match rng.below(46) {
        0 => format!("../{other}/{plain}"),
        1 => format!("{plain}/../../{other}/{plain}"),
        2 => "..".into(),
        3 => ".".into(),
        4 => String::new(),
        5 => format!("{}/escape", outside.display()),
        6 => outside.display().to_string(),
        7 => format!("{up}escape"),
        8 => "index".into(),
        9 => format!("{plain}/index"),
        10 => format!("./{plain}"),
        11 => format!("{plain}/"),
        12 => format!("{plain}/."),
        13 => format!("x/../{plain}"),
        14 => format!("{plain}//"),
        15 => format!("/{plain}"),
        16 => format!("{plain}\0"),
        17 => format!("{plain}\0/../x"),
        18 => format!("..\\{plain}"),
        19 => plain.to_uppercase(),
        20 => format!("{plain} "),
        21 => format!(" {plain}"),
        22 => format!("{plain}."),
        23 => format!("{plain}\n"),
        24 => "%".into(),
        25 => "%2e%2e".into(),
        26 => "%2f".into(),
        27 => format!("..%2f{other}%2f{plain}"),
        28 => "%25".into(),
        29 => plain.repeat(30),
        30 => "x".repeat(*rng.pick(&[100, 254, 255, 256, 300, 1000, 4096, 5000])),
        31 => "/".repeat(rng.range(1, 5) as usize),
        32 => format!("{plain}/{plain}"),
        33 => format!("{plain}\u{301}"),
        34 => (*rng.pick(&["é", "e\u{301}", "Å", "A\u{30a}", "ﬁ", "fi", "ß", "ss", "ı", "i", "I", "K", "k"])).to_string(),
        35 => format!("{other}/{plain}"),
        36 => format!("index.tmp{}", rng.pick(&["", "/x", "."])),
        37 => rng.u64().to_string(),
        38 => format!("{plain}/{}", rng.below(3)),
        39 => (*rng.pick(&["...", "..x", ".x", "~", "~/x", "-", "--", "*", "?", "con", "nul", "$HOME", "`id`", "a:b", "a|b", "<", "\"", "'", "\\", "\u{7f}", "\u{1}", "\t", "\r\n", "%00", "%2E", "%2f..", "_", "__"])).to_string(),
        40 => {
            // what an escaping scheme could turn another name into
            let c = *rng.pick(&['/', '.', '%', '\\', ':', ' ', '\0']);
            let code = c as u32;
            let form = match rng.below(6) {
                0 => format!("%{code:02x}"),
                1 => format!("%{code:02X}"),
                2 => format!("_{code:02x}"),
                3 => format!("\\x{code:02x}"),
                4 => format!("&#{code};"),
                _ => "_".to_string(),
            };
            format!("{plain}{form}{plain}")
        }
        41 => {
            let c = *rng.pick(&['/', '.', '%', '\\', ':', ' ', '\0', '_']);
            format!("{plain}{c}{plain}")
        }
        43 => {
            // alike up to their end or from their start
            let n = *rng.pick(&[30, 62, 63, 64, 126, 127, 128, 198, 253, 254]);
            let (same, c) = ("y".repeat(n), *rng.pick(&['a', 'b', '/']));
            if rng.bool() { format!("{same}{c}") } else { format!("{c}{same}") }
        }
        44 => format!("{}{}", "é".repeat(*rng.pick(&[31, 32, 63, 64, 100])), rng.pick(&["", "a", "b"])),
        42 => crate::refimpl::b64(plain.as_bytes()),
        _ => gen::string(rng, 12),
    }
}

/// A name that differs from `name` as little as possible.
fn sibling(rng: &mut Rng, name: &str) -> String {
    let mut chars: Vec<char> = name.chars().collect();
    let swaps = [('/', '_'), ('/', '\\'), ('/', '|'), ('.', '_'), (' ', '_'), (' ', '-'), ('%', '_'), ('-', '_'), ('+', ' '), ('a', 'A'), ('é', 'e'), ('\0', ' ')];
    match rng.below(10) {
        0 => name.to_uppercase(),
        1 => name.to_lowercase(),
        2 => format!("{name}{}", rng.pick(&["a", " ", ".", "/", "0", "\0", "_", "%"])),
        3 => {
            chars.pop();
            chars.into_iter().collect()
        }
        4 => {
            let last = if chars.pop() == Some('a') { 'b' } else { 'a' };
            chars.push(last);
            chars.into_iter().collect()
        }
        5 => chars.iter().skip(1).collect(),
        6 => {
            if let Some(c) = chars.first_mut() {
                *c = if *c == 'a' { 'b' } else { 'a' };
            }
            chars.into_iter().collect()
        }
        7 if chars.len() > 1 => {
            let i = rng.below(chars.len() as u64) as usize;
            chars[i] = if chars[i] == 'a' { 'b' } else { 'a' };
            chars.into_iter().collect()
        }
        8 => chars.into_iter().rev().collect(),
        _ => {
            let apt: Vec<_> = swaps.iter().filter(|(a, b)| chars.contains(a) || chars.contains(b)).collect();
            if apt.is_empty() {
                return format!("{name}{name}");
            }
            let (a, b) = **rng.pick(&apt);
            chars.iter().map(|c| if *c == a { b } else if *c == b { a } else { *c }).collect()
        }
    }
}

fn benign(name: &str) -> bool {
    !name.is_empty() && name.len() <= 60 && name.chars().all(|c| c.is_ascii_alphanumeric() || c == ' ' || c == '-' || c == '_')
}

fn c18_case(job: &mut Job, server: bool) {
    let mut rng = job.rng.fork();
    block_on(async {
        let rng = &mut rng;
        // scratch/case/a/b/c/{inbox,router}: room for several parent steps
        let outside = job.ctx.fresh_dir("outside");
        let receivers: Vec<Party> = Party::several(rng, 3);
        let deep = outside.join("a/b/c");
        std::fs::create_dir_all(&deep).expect("scratch");
        for path in ["canary", "a/canary", "a/b/canary", "a/b/c/canary"] {
            std::fs::write(outside.join(path), path).expect("scratch");
        }
        std::fs::create_dir_all(outside.join("a/b/c/victim")).expect("scratch");
        std::fs::write(outside.join("a/b/c/victim/index"), 7u64.to_be_bytes()).expect("scratch");
        let planted = MessageInfo { sender: gen::sender_record(rng), channel: "planted".into(), message: numbered(7_000_000, MessageEncoding::default()), received_at: 1 };
        std::fs::write(outside.join("a/b/c/victim/7"), planted.to_json().unwrap_or_default().to_string()).expect("scratch");

        let mut bench = if server {
            let party = Party::new(rng);
            Bench { way: Way::Server { net: Net::new(), secret: party.secret.clone(), server: party }, dir: deep.clone(), receivers, senders: vec![gen::sender_record(rng)] }
        } else {
            Bench { way: Way::Store(StoredQueueMessagesInbox::new(deep.join("inbox")).await.expect("inbox")), dir: deep.clone(), receivers, senders: vec![gen::sender_record(rng)] }
        };
        bench.open().await.expect("open");

        let ordinary: Vec<String> = (0..2).map(|_| gen::word(rng, 4)).collect();
        let mut names: Vec<String> = ordinary.clone();
        for _ in 0..rng.range(4, 10) {
            let name = hostile_channel(rng, &bench.receivers, &outside, &ordinary);
            if rng.bool() {
                names.push(sibling(rng, &name));
            }
            names.push(name);
        }
        if rng.chance(40) {
            names.push(format!("{}/victim", outside.join("a/b/c").display()));
            names.push("../../victim".into());
            names.push("../victim".into());
        }
        let watch = |outside: &Path| -> BTreeMap<String, Option<Vec<u8>>> {
            tree(outside).into_iter().filter(|(path, _)| !path.starts_with("a/b/c/inbox/")).collect()
        };
        let before = watch(&outside);
        let mut queues: BTreeMap<(usize, String), VecDeque<u64>> = BTreeMap::new();
        let mut lost: BTreeSet<u64> = BTreeSet::new();
        let mut refused_names: BTreeSet<String> = BTreeSet::new();
        let mut history: Vec<String> = Vec::new();
        let mut next = 0;

        let mut steps: Vec<(bool, usize, String)> = Vec::new();
        for _ in 0..rng.range(15, 40) {
            let name = rng.pick(&names).clone();
            steps.push((rng.chance(60), rng.below(3) as usize, name));
        }
        // in the end every queue is emptied, in a random order
        let mut last: Vec<(bool, usize, String)> = (0..3).flat_map(|i| names.iter().map(move |n| (false, i, n.clone()))).collect();
        rng.shuffle(&mut last);
        steps.extend(last);

        for (send, receiver, name) in steps {
            let party = bench.receivers[receiver].clone();
            if send {
                next += 1;
                let sender = bench.senders[0].clone();
                let result = bench.send(rng, &sender, &party, &name, &numbered(next, MessageEncoding::default())).await;
                history.push(format!("send {receiver} {name:?} {next} -> {}", if result.is_ok() { "ok" } else { "refused" }));
                match result {
                    Ok(()) => {
                        queues.entry((receiver, name.clone())).or_default().push_back(next);
                        job.ctx.count("sends accepted", 1);
                    }
                    Err(err) => {
                        lost.insert(next);
                        refused_names.insert(name.clone());
                        job.ctx.count("sends refused", 1);
                        job.check(!benign(&name), "an ordinary channel name is refused", || json!({ "name": name, "error": err, "history": history }));
                    }
                }
            } else {
                let limit = if rng.chance(70) { None } else { Some(rng.range(1, 3)) };
                let queue = queues.entry((receiver, name.clone())).or_default();
                let n = limit.unwrap_or(u64::MAX).min(queue.len() as u64) as usize;
                let result = bench.poll(rng, &party, &name, limit).await;
                history.push(format!("poll {receiver} {name:?} {limit:?}"));
                job.ctx.observe(&(job.index, server, history.len(), &name, queue.len()));
                match result {
                    Ok((messages, remaining)) => {
                        let got: Vec<u64> = messages.iter().map(|m| id_of(m).unwrap_or(u64::MAX)).collect();
                        let want: Vec<u64> = queue.drain(..n).collect();
                        let ok = got == want && remaining == queue.len() as u64 && messages.iter().all(|m| m.channel == name);
                        if !ok {
                            job.fail("a poll does not answer the queue of exactly that receiver and name", json!({
                                "name": name, "got": got, "want": want, "remaining": [remaining, queue.len()], "refused before": refused_names.contains(&name), "history": history,
                            }));
                            return;
                        }
                        job.ctx.count("polls compared", 1);
                        job.ctx.count("messages delivered under hostile names", if benign(&name) { 0 } else { got.len() as u64 });
                    }
                    Err(err) => {
                        job.ctx.count("polls refused", 1);
                        if !queue.is_empty() {
                            job.fail("a queue with accepted messages cannot be polled", json!({ "name": name, "error": err, "history": history }));
                            return;
                        }
                        job.check(!benign(&name), "an ordinary channel name is refused", || json!({ "name": name, "error": err, "history": history }));
                    }
                }
            }
        }
        let after = watch(&outside);
        if before != after {
            let changed: Vec<&String> = before.keys().chain(after.keys()).filter(|p| before.get(*p) != after.get(*p)).collect();
            job.fail("files outside the inbox were touched", json!({ "paths": changed, "history": history }));
        }
        job.ctx.count("trees compared", 1);
        job.ctx.sample("history", || json!(history));
        let _ = std::fs::remove_dir_all(&outside);
    });
}

pub fn c18(ctx: &Ctx) {
    ctx.cases("store", ctx.scale(900, 60_000), |job| c18_case(job, false));
    ctx.cases("server", ctx.scale(250, 15_000), |job| c18_case(job, true));
    ctx.require("sends accepted", 3_000);
    ctx.require("polls compared", 10_000);
    ctx.require("messages delivered under hostile names", 500);
    ctx.require("trees compared", 800);
}

// ------------------------------------------------------------------- C17

/// Sends and polls whose callers go away in the middle, one after another:
/// such a send queues its message at the end or not at all, such a poll takes
/// exactly its own messages or nothing. Every queue that could have come out
/// is kept until an answer rules it out.
fn c17_abandoned(job: &mut Job) {
    let mut rng = job.rng.fork();
    let rng = &mut rng;
    let fresh = || tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
    let server = rng.chance(30);
    let mut bench = fresh().block_on(bench(job.ctx, rng, server, 1));
    let party = bench.receivers[0].clone();
    let sender = bench.senders[0].clone();
    let mut queues: Vec<VecDeque<u64>> = vec![VecDeque::new()];
    let mut history = Vec::new();

    for id in 0..rng.range(10, 25) {
        let quits = rng.chance(45).then(|| *rng.pick(&[1u64, 1, 2, 3, 5]));
        let limit = match rng.below(5) { 0 => None, 1 => Some(0), n => Some(n - 1) };
        // dropping the runtime lets what was started come to its end
        let runtime = fresh();
        let send = rng.chance(60);
        if rng.chance(5) {
            history.push("reopen".to_string());
            if let Err(err) = runtime.block_on(bench.open()) {
                return job.fail("the inbox cannot be reopened", json!({ "error": err, "history": history }));
            }
        }
        let before = queues.clone();
        if send {
            let message = numbered(id, MessageEncoding::default());
            let work = bench.send(rng, &sender, &party, "q", &message);
            let done = runtime.block_on(crate::ctx::abandon(work, quits.unwrap_or(u64::MAX)));
            history.push(format!("send {id}: {done:?}"));
            match done {
                Some(Ok(())) => queues.iter_mut().for_each(|q| q.push_back(id)),
                Some(Err(err)) => return job.fail("a send fails", json!({ "error": err, "history": history })),
                None => {
                    job.ctx.count("operations abandoned", 1);
                    queues.extend(before.into_iter().map(|mut q| { q.push_back(id); q }));
                }
            }
        } else {
            let work = bench.poll(rng, &party, "q", limit);
            let done = runtime.block_on(crate::ctx::abandon(work, quits.unwrap_or(u64::MAX)));
            let take = |q: &mut VecDeque<u64>| q.drain(..q.len().min(limit.unwrap_or(u64::MAX).min(1 << 40) as usize)).collect::<Vec<_>>();
            match done {
                Some(Ok((messages, remaining))) => {
                    let ids: Vec<u64> = messages.iter().map(|m| id_of(m).unwrap_or(u64::MAX)).collect();
                    history.push(format!("poll {limit:?}: {ids:?} {remaining}"));
                    queues.retain_mut(|q| take(q) == ids && q.len() as u64 == remaining);
                    job.ctx.count("polls judged after abandoned operations", 1);
                    if queues.is_empty() {
                        return job.fail("after abandoned operations a poll answers what no order of them leaves", json!({ "history": history, "possible before": before }));
                    }
                }
                Some(Err(err)) => return job.fail("a poll fails", json!({ "error": err, "history": history })),
                None => {
                    job.ctx.count("operations abandoned", 1);
                    history.push(format!("poll {limit:?}: abandoned"));
                    queues.extend(before.into_iter().map(|mut q| { take(&mut q); q }));
                }
            }
        }
        queues.sort();
        queues.dedup();
        if queues.len() > 2000 {
            break;
        }
        drop(runtime);
    }
    job.ctx.observe(&history);
    let _ = std::fs::remove_dir_all(&bench.dir);
}

pub fn c17(ctx: &Ctx) {
    if !shim::loaded() {
        ctx.error("the file-system shim is not loaded");
        return;
    }
    shim::delays(&ctx.scratch, 120, 300, ctx.seed);
    ctx.cases_on(4, "abandoned", ctx.scale(500, 30_000), c17_abandoned);
    shim::set(shim::OFF);
    ctx.require("operations abandoned", 500);
    ctx.require("polls judged after abandoned operations", 500);
}

//! C14, C17: crashes and I/O faults at every file-system call of a script of
//! operations. The script runs in a process of its own under the shim; what it
//! acknowledged is read from its log, and what the reopened store answers is
//! compared with every state those acknowledgements allow.

use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io::Write as _;
use std::path::Path;
use std::process::{Command, Stdio};

use hyperborealib::prelude::*;
use hyperborealib::rest_api::types::{Client as ClientRecord, MessageInfo, Server as ServerRecord};
use serde_json::{json, Value as Json};

use crate::ctx::{block_on, Ctx, Job};
use crate::gen::Rng;
use crate::props::server::Party;
use crate::refimpl as r;
use crate::shim::{self, Plan};

// ------------------------------------------------------------ the process

fn key_of(json: &Json) -> PublicKey {
    PublicKey::from_base64(json.as_str().unwrap_or("")).expect("key")
}

async fn tables(router: &GlobalTableRouter) -> Result<Json, String> {
    let text = |e: <GlobalTableRouter as Router>::Error| e.to_string();
    let local = router.local_clients().await.map_err(text)?;
    let remote = router.remote_clients().await.map_err(text)?;
    let servers = router.servers().await.map_err(text)?;
    Ok(json!({
        "local": local.iter().map(|c| c.to_json().unwrap_or_default()).collect::<Vec<_>>(),
        "remote": remote.iter().map(|(c, s)| json!({ "public_key": c.to_json().unwrap_or_default()["public_key"], "client": c.to_json().unwrap_or_default(), "server": s.to_json().unwrap_or_default() })).collect::<Vec<_>>(),
        "servers": servers.iter().map(|s| s.to_json().unwrap_or_default()).collect::<Vec<_>>(),
    }))
}

async fn route(router: &GlobalTableRouter, op: &Json) -> Result<Json, String> {
    let text = |e: <GlobalTableRouter as Router>::Error| e.to_string();
    let client = || ClientRecord::from_json(&op["client"]).expect("client");
    let server = || ServerRecord::from_json(&op["server"]).expect("server");
    match op["op"].as_str().unwrap_or("") {
        "local" => router.index_local_client(client()).await.map(|b| json!(b)).map_err(text),
        "remote" => router.index_remote_client(client(), server()).await.map(|b| json!(b)).map_err(text),
        "server" => router.index_server(server()).await.map(|b| json!(b)).map_err(text),
        "disconnect" => router.disconnect(&key_of(&op["key"])).await.map(|_| json!(true)).map_err(text),
        _ => tables(router).await,
    }
}

async fn queue(inbox: &StoredQueueMessagesInbox, op: &Json) -> Result<Json, String> {
    let receiver = key_of(&op["receiver"]);
    let channel = op["channel"].as_str().unwrap_or("").to_string();
    match op["op"].as_str().unwrap_or("") {
        "send" => {
            let sender = Sender::from_json(&op["sender"]).expect("sender");
            let message = Message::new(op["id"].to_string(), "x".repeat(op["size"].as_u64().unwrap_or(0) as usize), MessageEncoding::default());
            inbox.add_message(sender, receiver, channel, message).await.map(|_| json!(true)).map_err(|e| e.to_string())
        }
        _ => inbox.poll_messages(receiver, channel, op["limit"].as_u64()).await.map_err(|e| e.to_string())
            .map(|(messages, remaining)| json!({ "ids": messages.iter().map(message_id).collect::<Vec<_>>(), "remaining": remaining })),
    }
}

/// The number of a message, if it is whole.
fn message_id(info: &MessageInfo) -> Option<u64> {
    if info.message.sign.chars().any(|c| c != 'x') {
        return None;
    }
    info.message.content.parse().ok()
}

/// `store <dir> <script file> <log file> <plan> [<first operation>]`
pub fn child(args: &[String]) {
    let dir = std::path::PathBuf::from(&args[0]);
    let script: Json = serde_json::from_slice(&std::fs::read(&args[1]).expect("script")).expect("script");
    let mut log = std::fs::OpenOptions::new().create(true).append(true).open(&args[2]).expect("log");
    let plan: Plan = serde_json::from_str(&args[3]).expect("plan");

    let first: usize = args.get(4).and_then(|n| n.parse().ok()).unwrap_or(0);

    // one write call per line: the process may end at any moment
    let mut note = move |line: Json| {
        let line = format!("{line}\n");
        log.write_all(line.as_bytes()).expect("log");
    };

    if !shim::loaded() {
        std::process::exit(3);
    }

    let runtime = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
    let routing = script["what"] == "table";
    let ops = script["ops"].as_array().cloned().unwrap_or_default();

    runtime.block_on(async move {
        shim::root(&dir);
        shim::set(plan);

        let mut table = None;
        let mut inbox = None;
        // a start that fails is tried again once
        for _ in 0..2 {
            let before = shim::get(3);
            note(json!({ "open": true }));
            let opened = if routing {
                GlobalTableRouter::new(&dir).await.map(|t| table = Some(t))
            } else {
                StoredQueueMessagesInbox::new(&dir).await.map(|t| inbox = Some(t))
            };
            match opened {
                Ok(()) => break,
                Err(err) if shim::get(3) > before => {
                    note(json!({ "open failed": err.to_string() }));
                    shim::set(Plan { mode: 1, ..plan });
                }
                Err(err) => {
                    note(json!({ "broken": format!("opening fails without a fault: {err}") }));
                    std::process::exit(0);
                }
            }
        }

        for (i, op) in ops.iter().enumerate().skip(first) {
            let fired = shim::get(3);
            let changed = shim::get(2);
            note(json!({ "start": i }));
            let result = if let Some(table) = &table {
                route(table, op).await
            } else {
                queue(inbox.as_ref().expect("inbox"), op).await
            };
            let mut line = json!({ "end": i, "fired": shim::get(3) - fired, "changed": shim::get(2) - changed });
            match result {
                Ok(value) => line["ok"] = value,
                Err(err) => line["err"] = json!(err),
            }
            note(line);
        }

        note(json!({ "done": true, "calls": shim::get(0), "changes": shim::get(1), "fired": shim::get(3), "where": shim::fired_name() }));
        shim::set(shim::OFF);
    });
}

// ------------------------------------------------------------- the checker

struct Run {
    /// index -> (finished, result, fired, changed)
    ops: Vec<Option<Json>>,
    done: Option<Json>,
    broken: Option<String>,
    crashed: bool,
}

/// Run the script; after a crash another process with the next plan goes on
/// with the operation after the interrupted one.
fn execute(ctx: &Ctx, dir: &Path, script: &Path, log: &Path, lives: &[Plan]) -> Option<Run> {
    let mut run = life(ctx, dir, script, log, lives[0], 0)?;
    for plan in &lives[1..] {
        if !run.crashed || run.broken.is_some() {
            break;
        }
        ctx.count("processes started after a crash", 1);
        run = life(ctx, dir, script, log, *plan, run.ops.len())?;
    }
    Some(run)
}

fn life(ctx: &Ctx, dir: &Path, script: &Path, log: &Path, plan: Plan, first: usize) -> Option<Run> {
    let output = Command::new(std::env::current_exe().ok()?)
        .args(["child", "store"])
        .arg(dir).arg(script).arg(log)
        .arg(serde_json::to_string(&plan).ok()?)
        .arg(first.to_string())
        .stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped())
        .output();
    let output = match output {
        Ok(output) => output,
        Err(err) => {
            ctx.error(format!("cannot start the process under test: {err}"));
            return None;
        }
    };
    let mut run = Run { ops: Vec::new(), done: None, broken: None, crashed: output.status.code() == Some(77) };
    if !run.crashed && !output.status.success() {
        // a panic, or another end nobody asked for
        run.broken = Some(format!("{}: {}", output.status, String::from_utf8_lossy(&output.stderr).chars().take(600).collect::<String>()));
    }
    for line in std::fs::read_to_string(log).unwrap_or_default().lines() {
        let Ok(line) = serde_json::from_str::<Json>(line) else { continue };
        if line.get("start").is_some() {
            run.ops.push(None);
        } else if line.get("end").is_some() {
            if let Some(last) = run.ops.last_mut() {
                *last = Some(line);
            }
        } else if line.get("done").is_some() {
            run.done = Some(line);
        } else if let Some(what) = line["broken"].as_str() {
            run.broken = Some(what.to_string());
        }
    }
    Some(run)
}

/// What the acknowledgements so far allow the routing table to be: every
/// (table, key) with its possible records.
type Possible = BTreeMap<(&'static str, String), BTreeSet<Option<String>>>;

fn tables_of(op: &Json) -> Vec<((&'static str, String), Option<String>)> {
    let key = |json: &Json| json["public_key"].as_str().unwrap_or("").to_string();
    match op["op"].as_str().unwrap_or("") {
        "local" => vec![(("local", key(&op["client"])), Some(op["client"].to_string()))],
        "remote" => vec![(("remote", key(&op["client"])), Some(json!([op["client"], op["server"]]).to_string()))],
        "server" => vec![(("servers", key(&op["server"])), Some(op["server"].to_string()))],
        "disconnect" => ["local", "remote", "servers"].into_iter().map(|t| ((t, op["key"].as_str().unwrap_or("").to_string()), None)).collect(),
        _ => vec![],
    }
}

fn absent() -> BTreeSet<Option<String>> {
    BTreeSet::from([None])
}

/// Compare lists with what is possible; what is seen is certain afterwards.
fn see(possible: &mut Possible, lists: &Json) -> Result<(), String> {
    for table in ["local", "remote", "servers"] {
        let mut seen: BTreeMap<String, String> = BTreeMap::new();
        for record in lists[table].as_array().into_iter().flatten() {
            let key = record["public_key"].as_str().unwrap_or("").to_string();
            let text = if table == "remote" { json!([record["client"], record["server"]]).to_string() } else { record.to_string() };
            if seen.insert(key.clone(), text).is_some() {
                return Err(format!("{table} lists {key} twice"));
            }
            possible.entry((table, key)).or_insert_with(absent);
        }
        for ((_, key), values) in possible.iter_mut().filter(|((t, _), _)| *t == table) {
            let value = seen.remove(key);
            if !values.contains(&value) {
                return Err(format!("{table}[{key}] is {value:?}, possible are {values:?}"));
            }
            *values = BTreeSet::from([value]);
        }
    }
    Ok(())
}

fn table_script(rng: &mut Rng) -> (Vec<Json>, Vec<Party>) {
    let parties: Vec<Party> = Party::several(rng, 3);
    let home = Party::new(rng);
    let mut ops = Vec::new();
    for version in 1..=rng.range(5, 10) {
        let among = if rng.bool() { 1 } else { 3 };
        let party = &parties[rng.below(among) as usize];
        let info = r::info_json("thin", Some(&format!("v{version}{}", "x".repeat(rng.below(300) as usize))));
        let client = r::client_json(&party.raw, 1_700_000_000 + version, &home.public, &info);
        let server = r::server_json(&home.public, &format!("v{version}"));
        ops.push(match rng.below(20) {
            0..=6 => json!({ "op": "local", "client": client }),
            7..=9 => json!({ "op": "remote", "client": client, "server": server }),
            10..=12 => json!({ "op": "server", "server": r::server_json(&party.public, &format!("v{version}{}", "y".repeat(rng.below(300) as usize))) }),
            13..=15 => json!({ "op": "disconnect", "key": party.b64 }),
            _ => json!({ "op": "read" }),
        });
    }
    ops.push(json!({ "op": "read" }));
    (ops, parties)
}

fn judge_table(job: &Job, dir: &Path, ops: &[Json], parties: &[Party], run: &Run, rng: &mut Rng) -> Result<(), String> {
    if let Some(what) = &run.broken {
        return Err(what.clone());
    }
    let mut possible: Possible = BTreeMap::new();
    for (i, end) in run.ops.iter().enumerate() {
        let op = &ops[i];
        let acknowledged = match end {
            Some(end) if end.get("ok").is_some() => {
                if op["op"] == "read" {
                    see(&mut possible, &end["ok"]).map_err(|e| format!("while running, operation {i}: {e}"))?;
                    job.ctx.count("lists compared while running", 1);
                }
                end["ok"] != json!(false)
            }
            Some(end) => {
                if end["fired"] == 0 {
                    return Err(format!("operation {i} fails although no fault occurred in it: {}", end["err"]));
                }
                job.ctx.count("operations reported as failed", 1);
                false
            }
            None => {
                job.ctx.count("operations interrupted", 1);
                false
            }
        };
        for (record, value) in tables_of(op) {
            let values = possible.entry(record).or_insert_with(absent);
            if acknowledged {
                values.clear();
            }
            values.insert(value);
        }
    }

    block_on(async {
        let router = GlobalTableRouter::new(dir).await.map_err(|e| format!("reopening fails: {e}"))?;
        let lists = tables(&router).await.map_err(|e| format!("after reopening a list fails: {e}"))?;
        see(&mut possible, &lists).map_err(|e| format!("after reopening: {e}"))?;
        for party in parties {
            let local = router.lookup_local_client(&party.key, None).await.map_err(|e| format!("after reopening a lookup fails: {e}"))?;
            let have = possible.get(&("local", party.b64.clone())).and_then(|v| v.iter().next().cloned()).flatten();
            if local.map(|(c, _)| c.to_json().unwrap_or_default().to_string()) != have {
                return Err("after reopening a lookup and a list disagree".to_string());
            }
        }
        // and the table still takes changes
        let home = Party::new(rng);
        for party in parties {
            let client = r::client_json(&party.raw, 1_800_000_000, &home.public, &r::info_json("thin", None));
            let op = match rng.below(4) {
                0 => json!({ "op": "local", "client": client }),
                1 => json!({ "op": "remote", "client": client, "server": r::server_json(&home.public, "after") }),
                2 => json!({ "op": "server", "server": r::server_json(&party.public, "after") }),
                _ => json!({ "op": "disconnect", "key": party.b64 }),
            };
            route(&router, &op).await.map_err(|e| format!("after reopening a change fails: {e}"))?;
            for (record, value) in tables_of(&op) {
                possible.insert(record, BTreeSet::from([value]));
            }
        }
        let lists = tables(&router).await.map_err(|e| format!("after reopening a list fails: {e}"))?;
        see(&mut possible, &lists).map_err(|e| format!("after reopening and changing: {e}"))?;
        job.ctx.count("reopened states judged", 1);
        Ok(())
    })
}

// ------------------------------------------------------------------ queues

type Queue = Vec<u64>;

struct Queues {
    possible: BTreeMap<(String, String), BTreeSet<Queue>>,
}

fn queue_of(op: &Json) -> (String, String) {
    (op["receiver"].as_str().unwrap_or("").to_string(), op["channel"].as_str().unwrap_or("").to_string())
}

impl Queues {
    fn states(&mut self, op: &Json) -> &mut BTreeSet<Queue> {
        self.possible.entry(queue_of(op)).or_insert_with(|| BTreeSet::from([vec![]]))
    }

    fn sent(&mut self, op: &Json, acknowledged: bool) {
        let id = op["id"].as_u64().unwrap_or(0);
        let states = self.states(op);
        let mut after: BTreeSet<Queue> = states.iter().map(|q| q.iter().copied().chain([id]).collect()).collect();
        if !acknowledged {
            after.extend(states.iter().cloned());
        }
        *states = after;
    }

    fn polled(&mut self, op: &Json, answer: &Json) -> Result<(), String> {
        let limit = op["limit"].as_u64().unwrap_or(u64::MAX);
        let got: Vec<Option<u64>> = answer["ids"].as_array().into_iter().flatten().map(Json::as_u64).collect();
        let remaining = answer["remaining"].as_u64();
        let states = self.states(op);
        let after: BTreeSet<Queue> = states.iter().filter_map(|q| {
            let n = limit.min(q.len() as u64) as usize;
            let (head, tail) = q.split_at(n);
            let fits = head.iter().map(|id| Some(*id)).collect::<Vec<_>>() == got && remaining == Some(tail.len() as u64);
            fits.then(|| tail.to_vec())
        }).collect();
        if after.is_empty() {
            return Err(format!("a poll (limit {:?}) answers {answer}; possible queues were {states:?}", op["limit"]));
        }
        *states = after;
        Ok(())
    }

    /// A poll that did not succeed may have lost what it was returning,
    /// unless it changed nothing.
    fn poll_failed(&mut self, op: &Json, changed: bool) {
        if !changed {
            return;
        }
        let limit = op["limit"].as_u64().unwrap_or(u64::MAX);
        let states = self.states(op);
        let mut after: BTreeSet<Queue> = BTreeSet::new();
        for q in states.iter() {
            let n = limit.min(q.len() as u64) as usize;
            for mask in 0..1u32 << n {
                after.insert(q.iter().enumerate().filter(|(i, _)| *i >= n || mask & 1 << i == 0).map(|(_, id)| *id).collect());
            }
        }
        *states = after;
    }
}

fn queue_script(rng: &mut Rng) -> Vec<Json> {
    let receivers: Vec<Party> = Party::several(rng, 2);
    let sender = crate::gen::sender_record(rng).to_json().unwrap_or_default();
    let mut ops = Vec::new();
    let mut id = 0;
    let mut depth = [0u64; 4];
    for _ in 0..rng.range(6, 13) {
        let place = if rng.chance(70) { 0 } else { rng.below(4) as usize };
        let receiver = &receivers[place % 2].b64;
        let channel = ["main", "other"][place / 2];
        // short queues keep the number of possible states small
        if depth[place] < 5 && rng.chance(60) {
            id += 1;
            depth[place] += 1;
            ops.push(json!({ "op": "send", "receiver": receiver, "channel": channel, "id": id, "size": rng.below(300), "sender": sender }));
        } else {
            let limit = match rng.below(3) { 0 => Json::Null, n => json!(n * 2 - 1) };
            depth[place] = depth[place].saturating_sub(limit.as_u64().unwrap_or(9));
            ops.push(json!({ "op": "poll", "receiver": receiver, "channel": channel, "limit": limit }));
        }
    }
    ops
}

fn judge_queue(job: &Job, dir: &Path, ops: &[Json], run: &Run, rng: &mut Rng) -> Result<(), String> {
    if let Some(what) = &run.broken {
        return Err(what.clone());
    }
    let mut queues = Queues { possible: BTreeMap::new() };
    for (i, end) in run.ops.iter().enumerate() {
        let op = &ops[i];
        let at = |e: String| format!("while running, operation {i}: {e}");
        match end {
            Some(end) if end.get("ok").is_some() => {
                if op["op"] == "send" {
                    queues.sent(op, true);
                } else {
                    queues.polled(op, &end["ok"]).map_err(at)?;
                    job.ctx.count("polls compared while running", 1);
                }
            }
            Some(end) => {
                if end["fired"] == 0 {
                    return Err(at(format!("fails although no fault occurred in it: {}", end["err"])));
                }
                job.ctx.count("operations reported as failed", 1);
                if op["op"] == "send" {
                    queues.sent(op, false);
                } else {
                    queues.poll_failed(op, end["changed"] != 0);
                }
            }
            None => {
                job.ctx.count("operations interrupted", 1);
                if op["op"] == "send" {
                    queues.sent(op, false);
                } else {
                    queues.poll_failed(op, true);
                }
            }
        }
    }

    block_on(async {
        let inbox = StoredQueueMessagesInbox::new(dir).await.map_err(|e| format!("reopening fails: {e}"))?;
        // sometimes a further message first: the queue still takes them
        let mut places: VecDeque<Json> = VecDeque::new();
        for op in ops {
            let place = json!({ "op": "poll", "receiver": op["receiver"], "channel": op["channel"], "limit": null });
            if !places.contains(&place) {
                places.push_back(place);
            }
        }
        for (n, place) in places.iter().enumerate() {
            if rng.bool() {
                if let Some(send) = ops.iter().find(|op| op["op"] == "send") {
                    let mut send = send.clone();
                    send["receiver"] = place["receiver"].clone();
                    send["channel"] = place["channel"].clone();
                    send["id"] = json!(1000 + n);
                    queue(&inbox, &send).await.map_err(|e| format!("after reopening a send fails: {e}"))?;
                    queues.sent(&send, true);
                }
            }
            let mut place = place.clone();
            if rng.bool() {
                place["limit"] = json!(rng.range(1, 3));
                let answer = queue(&inbox, &place).await.map_err(|e| format!("after reopening a poll fails: {e}"))?;
                queues.polled(&place, &answer).map_err(|e| format!("after reopening: {e}"))?;
                place["limit"] = Json::Null;
            }
            let answer = queue(&inbox, &place).await.map_err(|e| format!("after reopening a poll fails: {e}"))?;
            queues.polled(&place, &answer).map_err(|e| format!("after reopening: {e}"))?;
            job.ctx.count("reopened queues judged", 1);
        }
        job.ctx.count("reopened states judged", 1);
        Ok(())
    })
}

// ----------------------------------------------------------------- driving

const ERRORS: &[i32] = &[libc::EIO, libc::ENOSPC, libc::EACCES, libc::EMFILE];

fn faults_case(job: &mut Job, table: bool) {
    let mut rng = job.rng.fork();
    let rng = &mut rng;
    let base = job.ctx.fresh_dir("faults");
    let base = std::fs::canonicalize(&base).unwrap_or(base);
    let (ops, parties) = if table { table_script(rng) } else { (queue_script(rng), vec![]) };
    let script = base.join("script.json");
    let what = if table { "table" } else { "inbox" };
    if let Err(err) = std::fs::write(&script, json!({ "what": what, "ops": ops }).to_string()) {
        job.ctx.error(format!("script: {err}"));
        return;
    }

    let mut n = 0;
    let mut one = |rng: &mut Rng, lives: &[Plan]| -> Option<(Run, bool)> {
        let plan = lives[0];
        n += 1;
        let home = base.join(format!("r{n}"));
        let _ = std::fs::create_dir_all(&home);
        let dir = home.join("store");
        let run = execute(job.ctx, &dir, &script, &home.join("log"), lives)?;
        let fired = run.crashed || run.done.as_ref().is_some_and(|d| d["fired"].as_i64().unwrap_or(0) > 0) || run.ops.iter().flatten().any(|e| e["fired"] != 0);
        let verdict = if table { judge_table(job, &dir, &ops, &parties, &run, rng) } else { judge_queue(job, &dir, &ops, &run, rng) };
        let fault = match plan.mode {
            2 if lives.len() > 1 => "several crashes",
            6 => "a call fails, then a crash",
            2 => ["crash before a call", "crash after a call", "crash in the middle of a write"][plan.arg.clamp(0, 2) as usize],
            3 => "a call fails",
            4 => "calls keep failing",
            _ => "no fault",
        };
        if let Err(problem) = verdict {
            job.fail(format!("{what}: {fault}: the acknowledged operations are not what is found"), json!({
                "problem": problem, "plan": lives,
                "operations": ops.iter().map(|op| json!({ "op": op["op"], "key": op["key"], "id": op["id"], "channel": op["channel"], "limit": op["limit"], "client": op["client"]["public_key"], "server": op["server"]["public_key"] })).collect::<Vec<_>>(),
                "log": run.ops.iter().map(|o| o.as_ref().map(|o| o.to_string().chars().take(200).collect::<String>())).collect::<Vec<_>>(),
            }));
        }
        job.ctx.count(fault, 1);
        if fired {
            job.ctx.observe(&(job.index, lives));
            job.ctx.count("faults that fired", 1);
        }
        let _ = std::fs::remove_dir_all(&home);
        Some((run, fired))
    };

    let Some((run, _)) = one(rng, &[shim::COUNT]) else { return };
    let Some(done) = &run.done else {
        job.ctx.error("the script does not come to its end without faults");
        return;
    };
    let calls = done["calls"].as_i64().unwrap_or(0);
    let changes = done["changes"].as_i64().unwrap_or(0);
    if changes == 0 {
        job.ctx.error("no file-system call was seen by the shim");
        return;
    }
    job.ctx.count("file-system calls of the scripts", calls as u64);

    let mut plans: Vec<Vec<Plan>> = Vec::new();
    for at in 1..=changes {
        for arg in 0..3 {
            plans.push(vec![Plan { mode: 2, n: at, errno: 0, arg, seed: 0 }]);
        }
    }
    for at in 1..=calls {
        let errno = ERRORS[(at as usize + job.index as usize) % ERRORS.len()];
        plans.push(vec![Plan { mode: 3, n: at, errno, arg: at % 2, seed: 0 }]);
    }
    for _ in 0..12 {
        plans.push(vec![Plan { mode: 4, n: 1 + rng.below(calls as u64) as i64, errno: *rng.pick(&[libc::ENOSPC, libc::EMFILE, libc::EIO]), arg: *rng.pick(&[0, 1, 2, 3, 5]), seed: 0 }]);
    }
    // what is done about a failed call is cut short
    for at in 1..=calls {
        let errno = *rng.pick(ERRORS);
        plans.push(vec![Plan { mode: 6, n: at, errno, arg: rng.below(3) as i64, seed: *rng.pick(&[1, 1, 1, 2, 2, 3, 4]) }]);
    }
    // processes crash one after another
    for _ in 0..40 {
        let crash = |rng: &mut Rng, upto: i64| Plan { mode: 2, n: 1 + rng.below(upto.max(1) as u64) as i64, errno: 0, arg: rng.below(3) as i64, seed: 0 };
        let mut lives = vec![crash(rng, changes)];
        for _ in 0..rng.range(1, 4) {
            lives.push(crash(rng, 6));
        }
        plans.push(lives);
    }
    job.ctx.sample("script", || json!({ "operations": ops.len(), "calls": calls, "changing calls": changes, "runs": plans.len() }));
    for plan in plans {
        if job.ctx.violated() {
            break;
        }
        if one(rng, &plan).is_none() {
            break;
        }
    }
    let _ = std::fs::remove_dir_all(&base);
}

fn faults(ctx: &Ctx, table: bool) {
    if !shim::loaded() {
        ctx.error("the file-system shim is not loaded");
        return;
    }
    ctx.cases("script", ctx.scale(24, 1_200), |job| faults_case(job, table));
    ctx.require("faults that fired", 1_000);
    ctx.require("reopened states judged", 1_000);
    ctx.require("operations interrupted", 300);
    ctx.require("operations reported as failed", 200);
    ctx.require("several crashes", 200);
    ctx.require("a call fails, then a crash", 200);
}

pub fn c14(ctx: &Ctx) {
    faults(ctx, true);
    ctx.require("lists compared while running", 100);
}

pub fn c17(ctx: &Ctx) {
    faults(ctx, false);
    ctx.require("polls compared while running", 100);
}

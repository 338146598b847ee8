//! C19, C20, C22: lookups, traversals and address resolution over networks of
//! servers, judged by reachability computed here.

use std::collections::{BTreeMap, BTreeSet, VecDeque};

use hyperborealib::prelude::*;
use hyperborealib::rest_api::types::Server as ServerRecord;
use serde_json::{json, Value as Json};

use crate::ctx::{block_on, Ctx, Job};
use crate::gen::{self, Rng};
use crate::net::{driver, Exchange, Host, MemClient, Net, Reply};
use crate::props::client::{do_lookup, honest, Connected, Outcome};
use crate::props::server::{info_of, proven, Party};
use crate::refimpl as r;

// ----------------------------------------------------------------- graphs

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Fault {
    None,
    Down,
    Garbage,
    ErrorStatus,
    BadSign,
    AnotherSeed,
    ShortSign,
    BadKey,
    NoProof,
    WrongShape,
    BadRecord,
    HttpError,
}

const FAULTS: &[Fault] = &[
    Fault::Down, Fault::Garbage, Fault::ErrorStatus, Fault::BadSign, Fault::AnotherSeed, Fault::ShortSign,
    Fault::BadKey, Fault::NoProof, Fault::WrongShape, Fault::BadRecord, Fault::HttpError,
];

#[derive(Clone)]
struct Node {
    party: Party,
    address: String,
    fault: Fault,
    /// addresses and keys it names
    hints: Vec<(String, String)>,
    /// the answer it has for the target
    knows: Option<Json>,
}

fn address(rng: &mut Rng, i: usize, odd: bool) -> String {
    match rng.below(if odd { 11 } else { 5 }) {
        0 => format!("10.0.0.{i}:8000"),
        1 => format!("n{i}.example.org"),
        2 => format!("n{i}"),
        // several servers of one host
        3 => format!("shared.example.org:{}", 8000 + i),
        4 => format!("10.0.0.1:{}", 8000 + i),
        5 => format!("shared.example.org/{i}"),
        6 => format!("n{i}/base"),
        7 => format!("сервер-{i}"),
        8 => format!("[::{i:x}]:80"),
        9 => format!("n{i}?x=1"),
        _ => format!("N{i} "),
    }
}

/// What cannot be the address of any server.
fn nowhere(rng: &mut Rng) -> String {
    match rng.below(9) {
        0 | 1 => String::new(),
        2 => " ".into(),
        3 => "\t\r\n".into(),
        4 => "http://n0".into(),
        5 => "\0".into(),
        6 => "/".into(),
        7 => ":80".into(),
        _ => "x".repeat(rng.range(300, 3000) as usize),
    }
}

fn is_nowhere(address: &str) -> bool {
    address.trim().is_empty() || address.contains("://") || address.contains('\0') || address == "/" || address == ":80" || address.len() > 250
}

/// `huge` makes it larger than any budget that could go unnoticed.
fn graph(rng: &mut Rng, stolen: bool, huge: bool) -> Vec<Node> {
    let n = match rng.below(20) {
        _ if huge => 1200,
        0 => 1,
        1 => 2,
        2..=15 => rng.range(3, 12) as usize,
        16 | 17 => rng.range(13, 40) as usize,
        _ => rng.range(60, 120) as usize,
    };
    let faulty = if huge { 0 } else { *rng.pick(&[0u64, 0, 15, 30, 50]) };
    let mut nodes: Vec<Node> = (0..n).map(|i| Node {
        party: Party::new(rng),
        address: address(rng, i, true),
        fault: if rng.chance(faulty) { *rng.pick(FAULTS) } else { Fault::None },
        hints: Vec::new(),
        knows: None,
    }).collect();

    let shape = if huge { *rng.pick(&[0, 1, 3]) } else { rng.below(6) };
    let name = |nodes: &[Node], i: usize| (nodes[i].address.clone(), nodes[i].party.b64.clone());
    for i in 0..n {
        let mut hints = Vec::new();
        match shape {
            // chain
            0 => if i + 1 < n { hints.push(name(&nodes, i + 1)) },
            // ring, both ways
            1 => {
                hints.push(name(&nodes, (i + 1) % n));
                hints.push(name(&nodes, (i + n - 1) % n));
            }
            // everybody knows everybody
            2 => (0..n).for_each(|j| hints.push(name(&nodes, j))),
            // star around the first
            3 => if i == 0 { (1..n).for_each(|j| hints.push(name(&nodes, j))) } else { hints.push(name(&nodes, 0)) },
            // random
            _ => {
                let m = rng.below(5);
                for _ in 0..m {
                    let j = rng.below(n as u64) as usize;
                    hints.push(name(&nodes, j));
                }
            }
        }
        // repeats, itself, servers that do not exist
        if rng.chance(25) {
            let me = name(&nodes, i);
            hints.push(me);
        }
        if rng.chance(25) && !hints.is_empty() {
            let again = rng.pick(&hints).clone();
            (0..rng.range(1, 4)).for_each(|_| hints.push(again.clone()));
        }
        if rng.chance(20) {
            let ghost = Party::new(rng);
            hints.push((format!("ghost-{i}-{}", gen::word(rng, 5)), ghost.b64));
        }
        // no address at all
        if rng.chance(15) {
            let ghost = Party::new(rng);
            hints.push((nowhere(rng), ghost.b64));
        }
        // a place without a server, under the key of one that exists
        if stolen && rng.chance(20) {
            let j = rng.below(n as u64) as usize;
            hints.push((format!("stolen-{i}-{}", gen::word(rng, 5)), nodes[j].party.b64.clone()));
        }
        rng.shuffle(&mut hints);
        nodes[i].hints = hints;
    }
    nodes
}

fn records(hints: &[(String, String)]) -> Vec<Json> {
    hints.iter().map(|(address, key)| json!({ "public_key": key, "address": address })).collect()
}

/// Addresses reached from `start` through nodes without a fault, and the
/// nodes among them.
fn reach(nodes: &[Node], start: &[String], ends: impl Fn(&Node) -> bool) -> (BTreeSet<String>, Vec<usize>) {
    let mut seen: BTreeSet<String> = BTreeSet::new();
    let mut queue: VecDeque<String> = start.iter().cloned().collect();
    let mut valid = Vec::new();
    while let Some(address) = queue.pop_front() {
        if !seen.insert(address.clone()) {
            continue;
        }
        if let Some(i) = nodes.iter().position(|n| n.address == address) {
            if nodes[i].fault == Fault::None {
                valid.push(i);
                if !ends(&nodes[i]) {
                    queue.extend(nodes[i].hints.iter().map(|(a, _)| a.clone()));
                }
            }
        }
    }
    (seen, valid)
}

fn describe(nodes: &[Node]) -> Json {
    json!(nodes.iter().map(|n| json!({
        "address": n.address, "fault": format!("{:?}", n.fault), "hints": n.hints.iter().map(|(a, _)| a).collect::<Vec<_>>(), "knows": n.knows.is_some(),
    })).collect::<Vec<_>>())
}

// ------------------------------------------------------------------- C19

fn spoil(rng: &mut Rng, node: &Node, e: &Exchange, body: Json) -> Reply {
    let seed = e.request.as_ref().and_then(|q| q["proof"]["seed"].as_u64()).unwrap_or(0);
    let mut reply = r::success_json(&node.party.raw, seed, body);
    match node.fault {
        Fault::None => (),
        Fault::Down => return Reply::Fail,
        Fault::Garbage => return Reply::Text(200, gen::string(rng, 40)),
        Fault::ErrorStatus => reply = r::error_json(*rng.pick(&[200, 300, 301, 310, 311, 320, 321, 322]), "no"),
        Fault::BadSign => {
            let mut sign = reply["proof"]["sign"].as_str().and_then(r::unb64).unwrap_or_default();
            let i = rng.below(sign.len() as u64 * 8) as usize;
            sign[i / 8] ^= 1 << (i % 8);
            reply["proof"]["sign"] = json!(r::b64(&sign));
        }
        Fault::AnotherSeed => reply["proof"]["sign"] = json!(r::b64(&r::sign(&node.party.raw, &(seed ^ 1).to_be_bytes()))),
        Fault::ShortSign => reply["proof"]["sign"] = json!(r::b64(&rng.bytes(10))),
        Fault::BadKey => reply["public_key"] = json!(r::b64(&[2; 33][..20])),
        Fault::NoProof => { reply.as_object_mut().unwrap().remove("proof"); }
        Fault::WrongShape => reply["response"] = json!({ "disposition": "elsewhere" }),
        Fault::BadRecord => {
            reply["response"] = json!({ "disposition": "hint", "servers": [{ "address": "x" }] });
        }
        Fault::HttpError => return Reply::Text(503, "<html>unavailable</html>".into()),
    }
    Reply::json(&reply)
}

fn connect(net: &Net, me: &Party, server: &Party, address: &str) -> Option<Connected> {
    let party = server.clone();
    net.before(move |e| Some(honest(&party, e, json!({}))));
    let client = ClientMiddleware::new(net.client(1), ClientDriver::thin(me.secret.clone()));
    let connected = block_on(client.connect_to(address, server.key.clone())).ok();
    net.honest();
    net.take_log();
    connected
}

/// The node that is reached last, breadth first.
fn farthest(nodes: &[Node]) -> usize {
    let places: std::collections::HashMap<&str, usize> = nodes.iter().enumerate().map(|(i, n)| (n.address.as_str(), i)).collect();
    let mut seen = BTreeSet::from([0]);
    let mut queue = VecDeque::from([0]);
    let mut last = 0;
    while let Some(i) = queue.pop_front() {
        last = i;
        for (address, _) in &nodes[i].hints {
            if let Some(j) = places.get(address.as_str()) {
                if seen.insert(*j) {
                    queue.push_back(*j);
                }
            }
        }
    }
    last
}

fn c19_case(job: &mut Job) {
    let ctx = job.ctx;
    let mut rng = job.rng.fork();
    let mut nodes = graph(&mut rng, true, job.index == 0);
    let net = Net::new();
    let me = Party::new(&mut rng);
    let target = Party::new(&mut rng);
    let filter = gen::opt_client_type(&mut rng);
    let first_faulty = rng.chance(8);
    if !first_faulty {
        nodes[0].fault = Fault::None;
    }

    // who knows the target; in the large network only the last one asked
    let huge = job.index == 0;
    let knowers = match rng.below(5) {
        _ if huge => 1,
        0 => 0,
        1 | 2 => 1,
        3 => 2,
        _ => rng.below(4),
    };
    for _ in 0..knowers {
        let mut i = rng.below(nodes.len() as u64) as usize;
        if huge {
            i = farthest(&nodes);
        }
        let other = Party::new(&mut rng);
        let client = r::client_json(&target.raw, gen::auth_date(&mut rng), &nodes[i].party.public, &info_of(&mut rng));
        nodes[i].knows = Some(if rng.bool() {
            json!({ "disposition": "local", "client": client, "available": rng.bool() })
        } else {
            json!({ "disposition": "remote", "client": client, "server": r::server_json(&other.public, &gen::word(&mut rng, 10)), "available": rng.bool() })
        });
    }

    let Some(connected) = connect(&net, &me, &nodes[0].party, &nodes[0].address) else {
        return job.fail("an honest connection was refused", json!({}));
    };

    // replies are prepared per node, so that they do not depend on the order
    {
        let nodes = nodes.clone();
        let rngs = std::sync::Mutex::new(rng.fork());
        net.before(move |e| {
            let rest = e.url.strip_prefix("http://").and_then(|u| u.strip_suffix("/api/v1/lookup")).unwrap_or("?");
            let Some(node) = nodes.iter().find(|n| n.address == rest) else { return Some(Reply::Fail) };
            let body = match &node.knows {
                Some(found) => found.clone(),
                None => json!({ "disposition": "hint", "servers": records(&node.hints) }),
            };
            Some(spoil(&mut rngs.lock().unwrap(), node, e, body))
        });
    }

    let addresses: BTreeSet<&String> = nodes.iter().flat_map(|n| n.hints.iter().map(|(a, _)| a)).chain([&nodes[0].address]).collect();
    let result = block_on(net.bounded(addresses.len() as u64 + 3, do_lookup(&connected, target.key.clone(), filter)));
    let log = net.take_log();

    let (seen, valid) = reach(&nodes, &[nodes[0].address.clone()], |n| n.knows.is_some());
    // nodes that know the target do not hint, so all others have been asked
    let answers: Vec<Json> = valid.iter().filter_map(|i| {
        let node = &nodes[*i];
        node.knows.as_ref().map(|found| {
            let server = if found["disposition"] == "local" { r::server_json(&node.party.public, &node.address) } else { found["server"].clone() };
            json!({ "client": found["client"], "server": server, "available": found["available"] })
        })
    }).collect();

    ctx.observe(&describe(&nodes).to_string());
    ctx.count("hints without address", nodes.iter().flat_map(|n| &n.hints).filter(|(a, _)| is_nowhere(a)).count() as u64);
    ctx.count("lookup requests", log.len() as u64);
    ctx.count("faulty servers on the way", log.iter().filter(|e| nodes.iter().any(|n| e.url == format!("http://{}/api/v1/lookup", n.address) && n.fault != Fault::None)).count() as u64);
    ctx.count(if answers.is_empty() { "unreachable targets" } else { "reachable targets" }, 1);

    let detail = |what: String| json!({
        "problem": what, "network": describe(&nodes), "requests": log.iter().map(|e| format!("{} {} -> {:?}", e.method, e.url, e.reply)).collect::<Vec<_>>(), "result": format!("{result:?}"),
    });

    let Some(result) = &result else {
        return job.fail("a lookup does not end", detail(format!("{} requests for {} addresses", log.len(), addresses.len())));
    };

    // the requests
    let mut asked = BTreeSet::new();
    let mut allowed: BTreeSet<String> = [nodes[0].address.clone()].into();
    for e in &log {
        let rest = e.url.strip_prefix("http://").and_then(|u| u.strip_suffix("/api/v1/lookup"));
        let Some(rest) = rest else { return job.fail("a lookup asked somewhere else", detail(e.url.clone())) };
        if !allowed.contains(rest) {
            return job.fail("a lookup asked a server nobody named", detail(e.url.clone()));
        }
        if !asked.insert(rest.to_string()) {
            return job.fail("a lookup asked a server twice", detail(e.url.clone()));
        }
        let q = e.request.clone().unwrap_or(Json::Null);
        let kind = filter.map(|f| f.to_string());
        if e.method != "POST" || !proven(&q) || q["public_key"] != me.b64.as_str() || q["request"] != json!({ "public_key": target.b64, "type": kind }) {
            return job.fail("a lookup asked something else", detail(q.to_string()));
        }
        if let Some(node) = nodes.iter().find(|n| n.address == rest && n.fault == Fault::None) {
            allowed.extend(node.hints.iter().map(|(a, _)| a.clone()));
        }
    }

    // the result
    if nodes[0].fault != Fault::None {
        if matches!(result, Outcome::Ok(value) if !value.is_null()) {
            job.fail("a lookup found what no proven answer said", detail(String::new()));
        }
        return;
    }
    match result {
        Outcome::Ok(Json::Null) if answers.is_empty() => {
            // what is no address needs not be tried
            if seen.difference(&asked).any(|address| !is_nowhere(address)) {
                job.fail("a lookup gave up before asking every hinted server", detail(format!("not asked: {:?}", seen.difference(&asked).collect::<Vec<_>>())));
            }
        }
        Outcome::Ok(Json::Null) => job.fail("a lookup did not find a reachable client", detail(format!("{answers:?}"))),
        Outcome::Ok(found) if answers.contains(found) => (),
        Outcome::Ok(_) => job.fail("a lookup found what no proven answer said", detail(format!("{answers:?}"))),
        _ => job.fail("a lookup failed", detail(String::new())),
    }
}

pub fn c19(ctx: &Ctx) {
    ctx.cases("hints", ctx.scale(3000, 60_000), c19_case);
    ctx.require("lookup requests", 5000);
    ctx.require("hints without address", 500);
    ctx.require("faulty servers on the way", 300);
    ctx.require("reachable targets", 300);
    ctx.require("unreachable targets", 300);
}

// ------------------------------------------------------------------- C20

fn c20_case(job: &mut Job) {
    let ctx = job.ctx;
    let mut rng = job.rng.fork();
    let nodes = graph(&mut rng, false, job.index == 0);
    let net = Net::new();
    let own = Party::new(&mut rng);
    let own_address = "self.example.org".to_string();
    let mut nodes = nodes;

    // servers that name this one, and disagree about addresses
    for i in 0..nodes.len() {
        if rng.chance(15) {
            nodes[i].hints.push((own_address.clone(), own.b64.clone()));
        }
        if rng.chance(8) {
            let j = rng.below(nodes.len() as u64) as usize;
            let k = rng.below(nodes.len() as u64) as usize;
            // the key of one at the address of another, or nowhere
            let (key, address) = (nodes[j].party.b64.clone(), nodes[k].address.clone());
            nodes[i].hints.push((if rng.bool() { address } else { format!("moved-{j}") }, key));
        }
        let mut hints = std::mem::take(&mut nodes[i].hints);
        rng.shuffle(&mut hints);
        nodes[i].hints = hints;
    }

    let mut initial: Vec<(String, String)> = vec![(nodes[0].address.clone(), nodes[0].party.b64.clone())];
    for _ in 0..rng.below(3) {
        let node = rng.pick(&nodes);
        initial.push((node.address.clone(), node.party.b64.clone()));
    }
    if rng.chance(4) {
        initial.clear();
    }

    let dir = ctx.fresh_dir("traverse");

    {
        let nodes = nodes.clone();
        let rngs = std::sync::Mutex::new(rng.fork());
        net.before(move |e| {
            let rest = e.url.strip_prefix("http://").and_then(|u| u.strip_suffix("/api/v1/servers")).unwrap_or("?");
            let Some(node) = nodes.iter().find(|n| n.address == rest) else { return Some(Reply::Fail) };
            let rng = &mut *rngs.lock().unwrap();
            let list = json!({ "standard": 1, "servers": records(&node.hints) });
            Some(match node.fault {
                Fault::None => Reply::json(&list),
                Fault::Down => Reply::Fail,
                Fault::Garbage => Reply::Text(200, gen::string(rng, 40)),
                Fault::HttpError => Reply::Text(503, "<html>unavailable</html>".into()),
                Fault::ErrorStatus => Reply::json(&r::error_json(200, "no")),
                Fault::NoProof => Reply::json(&json!({})),
                Fault::BadSign => Reply::json(&json!([list])),
                Fault::AnotherSeed => Reply::json(&json!({ "standard": 2, "servers": records(&node.hints) })),
                Fault::ShortSign => Reply::json(&json!({ "standard": 1, "servers": null })),
                Fault::BadKey => Reply::json(&json!({ "standard": 1, "servers": [{ "public_key": "AAAA", "address": "x" }] })),
                Fault::WrongShape => Reply::json(&json!({ "standard": 1, "servers": { "a": 1 } })),
                Fault::BadRecord => Reply::json(&json!({ "standard": 1, "servers": [{ "address": "x" }] })),
            })
        });
    }

    let addresses: BTreeSet<&String> = nodes.iter().flat_map(|n| n.hints.iter().map(|(a, _)| a)).chain(initial.iter().map(|(a, _)| a)).collect();

    block_on(async {
        let driver = match driver(&dir, &own.secret, &own_address).await {
            Ok(driver) => driver,
            Err(err) => return ctx.error(format!("driver: {err}")),
        };
        for (address, key) in &initial {
            let key = PublicKey::from_base64(key).expect("key");
            if driver.router().index_server(ServerRecord::new(key, address)).await.is_err() {
                return job.fail("a server could not be registered", json!(address));
            }
        }
        // what the table kept of the initial records
        let Ok(start) = driver.router().servers().await else { return job.fail("the routing table cannot be read", json!({})) };
        let start: Vec<(String, String)> = start.iter().map(|s| (s.address.clone(), r::b64(&s.public_key.to_bytes()))).collect();

        for round in 0..1 + rng.below(2) {
            let before = match driver.router().servers().await {
                Ok(before) => before,
                Err(_) => return job.fail("the routing table cannot be read", json!({})),
            };
            let known: Vec<String> = before.iter().map(|s| s.address.clone()).collect();
            let ended = net.bounded(addresses.len() as u64 + 2, driver.traversal().traverse(net.client(9), &driver)).await;
            let log = net.take_log();

            let (seen, valid) = reach(&nodes, &known, |_| false);
            let mut reported: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
            for (address, key) in start.iter().cloned().chain(before.iter().map(|s| (s.address.clone(), r::b64(&s.public_key.to_bytes()))))
                .chain(valid.iter().flat_map(|i| nodes[*i].hints.iter().cloned())) {
                reported.entry(key).or_default().insert(address);
            }

            let after = driver.router().servers().await;
            ctx.observe(&(round, describe(&nodes).to_string(), known.clone()));
            ctx.count("servers without address", nodes.iter().flat_map(|n| &n.hints).filter(|(a, _)| is_nowhere(a)).count() as u64);
            ctx.count("traversal requests", log.len() as u64);
            ctx.count("servers discovered", after.as_ref().map(|a| a.len().saturating_sub(before.len()) as u64).unwrap_or(0));

            let detail = |what: String| json!({
                "problem": what, "network": describe(&nodes), "known before": known, "round": round,
                "requests": log.iter().map(|e| format!("{} {}", e.method, e.url)).collect::<Vec<_>>(),
                "table": format!("{after:?}"),
            });

            if ended.is_none() {
                return job.fail("a traversal does not end", detail(format!("{} requests for {} addresses", log.len(), addresses.len())));
            }
            let mut asked = BTreeSet::new();
            for e in &log {
                let rest = e.url.strip_prefix("http://").and_then(|u| u.strip_suffix("/api/v1/servers"));
                match rest {
                    Some(rest) if e.method == "GET" && seen.contains(rest) => {
                        if !asked.insert(rest.to_string()) {
                            return job.fail("a traversal asked a server twice", detail(e.url.clone()));
                        }
                    }
                    _ => return job.fail("a traversal made a request nobody asked for", detail(e.url.clone())),
                }
            }
            let Ok(after) = &after else { return job.fail("the routing table cannot be read", detail(String::new())) };
            let mut table = BTreeMap::new();
            for server in after {
                if table.insert(r::b64(&server.public_key.to_bytes()), server.address.clone()).is_some() {
                    return job.fail("a server is in the table twice", detail(String::new()));
                }
            }
            for (key, known_as) in &reported {
                match table.get(key) {
                    Some(address) if known_as.contains(address) => (),
                    None if *key == own.b64 => (),
                    None => return job.fail("a reachable server is missing from the table", detail(format!("{key} at {known_as:?}"))),
                    Some(address) => return job.fail("a server is in the table at an address nobody named", detail(format!("{key} at {address}"))),
                }
            }
            if let Some(key) = table.keys().find(|key| !reported.contains_key(*key)) {
                return job.fail("a server nobody named is in the table", detail(key.clone()));
            }
            if driver.router().local_clients().await.map(|l| l.len()).ok() != Some(0) || driver.router().remote_clients().await.map(|l| l.len()).ok() != Some(0) {
                return job.fail("a traversal registered clients", detail(String::new()));
            }
        }
    });

    let _ = std::fs::remove_dir_all(dir);
}

/// Traversal over real servers, while servers announce themselves.
fn c20_real(job: &mut Job) {
    let ctx = job.ctx;
    let mut rng = job.rng.fork();
    let net = Net::new();

    block_on(async {
        let n = rng.range(2, 6) as usize;
        let mut hosts = Vec::new();
        for i in 0..n {
            let dir = ctx.fresh_dir("host");
            hosts.push(Host::start(&net, &format!("h{i}"), Party::new(&mut rng).secret, dir).await);
        }
        // who is announced to whom
        let mut edges: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n];
        for i in 0..n {
            for j in 0..n {
                if i != j && rng.chance(40) {
                    if hosts[i].driver.router().index_server(ServerRecord::new(hosts[j].public(), &hosts[j].name)).await.is_err() {
                        return job.fail("a server could not be registered", json!({}));
                    }
                    edges[i].insert(j);
                }
            }
        }
        // each in turn updates its map; the lists grow on the way
        for _ in 0..rng.range(1, 2 * n as u64) {
            let i = rng.below(n as u64) as usize;
            let ended = net.bounded(4 * n as u64, hosts[i].driver.traversal().traverse(net.client(i as u8), &hosts[i].driver)).await;
            let log = net.take_log();
            let mut reached = BTreeSet::new();
            let mut queue: Vec<usize> = edges[i].iter().copied().collect();
            while let Some(j) = queue.pop() {
                if reached.insert(j) {
                    queue.extend(edges[j].iter().copied());
                }
            }
            let table: BTreeSet<usize> = match hosts[i].driver.router().servers().await {
                Ok(list) => list.iter().filter_map(|s| hosts.iter().position(|h| h.public() == s.public_key && h.name == s.address)).collect(),
                Err(_) => return job.fail("the routing table cannot be read", json!({})),
            };
            ctx.observe(&(job.index, i, format!("{edges:?}")));
            ctx.count("real traversals", 1);
            let detail = || json!({ "from": i, "announced": format!("{edges:?}"), "table": format!("{table:?}"), "requests": log.iter().map(|e| e.url.clone()).collect::<Vec<_>>() });
            if ended.is_none() {
                return job.fail("a traversal does not end", detail());
            }
            let urls: BTreeSet<&String> = log.iter().map(|e| &e.url).collect();
            if urls.len() != log.len() {
                return job.fail("a traversal asked a server twice", detail());
            }
            if !reached.iter().all(|j| *j == i || table.contains(j)) {
                return job.fail("a reachable server is missing from the table", detail());
            }
            if !table.iter().all(|j| *j == i || reached.contains(j)) {
                return job.fail("a server nobody named is in the table", detail());
            }
            edges[i] = table;
        }
        for host in hosts {
            let _ = std::fs::remove_dir_all(host.dir);
        }
    });
}

pub fn c20(ctx: &Ctx) {
    ctx.cases("graph", ctx.scale(500, 8000), c20_case);
    ctx.cases("real", ctx.scale(120, 2000), c20_real);
    ctx.require("servers without address", 300);
    ctx.require("traversal requests", 1500);
    ctx.require("servers discovered", 500);
    ctx.require("real traversals", 100);
}

// ------------------------------------------------------------------- C22

#[derive(Debug, Clone, PartialEq)]
enum Parsed {
    Client(String, Option<&'static str>),
    Http(String),
    Https(String),
    Raw(String),
    Invalid,
    /// not decided by the documentation
    Any,
}

const SCHEMES: &[(&str, Option<&str>)] = &[
    ("hyperborea", None), ("hyp", None),
    ("hyperborea-client", Some("thin")), ("hyp-client", Some("thin")),
    ("hyperborea-server", Some("server")), ("hyp-server", Some("server")),
    ("hyperborea-file", Some("file")), ("hyp-file", Some("file")),
];

fn client_key(text: &str) -> Option<Option<String>> {
    let bytes = r::unb64(text)?;
    k256::PublicKey::from_sec1_bytes(&bytes).ok()?;
    // only the compressed form (tags 2 and 3) is the key's text form
    Some((bytes.len() == 33 && matches!(bytes[0], 2 | 3)).then(|| text.to_string()))
}

fn expected(uri: &str) -> Parsed {
    let Some(at) = uri.find("://") else { return Parsed::Raw(uri.to_string()) };
    let (scheme, rest) = (&uri[..at], &uri[at + 3..]);
    match scheme {
        "http" => return Parsed::Http(rest.to_string()),
        "https" => return Parsed::Https(rest.to_string()),
        _ => (),
    }
    let Some((_, kind)) = SCHEMES.iter().find(|(name, _)| *name == scheme) else { return Parsed::Raw(uri.to_string()) };
    let (kind, key) = match kind {
        Some(kind) => (Some(*kind), rest),
        None => match ["thin", "thick", "server", "file"].iter().find(|kind| rest.strip_prefix(**kind).is_some_and(|r| r.starts_with(':'))) {
            Some(kind) => (Some(*kind), &rest[kind.len() + 1..]),
            None => (None, rest),
        },
    };
    match client_key(key) {
        Some(Some(key)) => Parsed::Client(key, kind),
        Some(None) => Parsed::Any,
        None => Parsed::Invalid,
    }
}

fn got(result: Result<Address, CryptographyError>) -> Parsed {
    match result {
        Ok(Address::Hyperborea { public_key, client_type }) => Parsed::Client(r::b64(&public_key.to_bytes()), client_type.map(|kind| match kind {
            ClientType::Thin => "thin",
            ClientType::Thick => "thick",
            ClientType::Server => "server",
            ClientType::File => "file",
        })),
        Ok(Address::Http { address }) => Parsed::Http(address),
        Ok(Address::Https { address }) => Parsed::Https(address),
        Ok(Address::Raw(text)) => Parsed::Raw(text),
        Err(_) => Parsed::Invalid,
    }
}

fn uri(rng: &mut Rng) -> String {
    let key = |rng: &mut Rng| {
        let public = Party::new(rng).public;
        match rng.below(14) {
            0 => r::b64(&public)[..rng.below(44) as usize].to_string(),
            1 => {
                let mut text = r::b64(&public).into_bytes();
                let i = rng.below(text.len() as u64) as usize;
                text[i] = *rng.pick(b"ABCxyz019-_+/=: ");
                String::from_utf8(text).unwrap()
            }
            2 => r::b64(&public[..32]),
            3 => r::b64(&[&public[..], &[0]].concat()),
            4 => r::b64(&{ let mut p = public; p[0] = *rng.pick(&[0, 1, 4, 5, 6, 255]); p }),
            5 => r::b64(&[2; 33]),
            6 => String::new(),
            7 => format!("{} ", r::b64(&public)),
            8 => format!("{}/", r::b64(&public)),
            9 => crate::ctx::hex(&public),
            _ => r::b64(&public),
        }
    };
    match rng.below(12) {
        0 => gen::string(rng, 60),
        1 => format!("{}://{}", gen::string(rng, 12), gen::string(rng, 30)),
        2 => {
            let text = *rng.pick(&["http", "https", "HTTP", "Http", "hyp", "HYP", "Hyperborea", " http", "http ", "ftp", "ws", "hyp-thin", "hyperborea-thick", "hyperborea_client", "hyp-clients", "", "httpss", "hyp-", "hyper", "hyperborea-server-client"]);
            let rest = if rng.bool() { key(rng) } else { gen::string(rng, 30) };
            format!("{text}{}{rest}", rng.pick(&["://", "://", "://", ":/", "//", ":", "", ":///", "/"]))
        }
        3 => format!("{}://{}://{}", rng.pick(&["http", "https", "hyp", "x", ""]), gen::word(rng, 8), gen::string(rng, 20)),
        4 => {
            let url = format!("{}:{}/{}", gen::word(rng, 10), rng.below(65536), gen::string(rng, 20));
            format!("{}://{url}", rng.pick(&["http", "https"]))
        }
        5 => {
            let prefix = *rng.pick(&["thin", "thick", "server", "file", "Thin", "client", "", "thin ", "thin:thin", "file:server"]);
            format!("{}://{prefix}:{}", rng.pick(&["hyperborea", "hyp", "hyp-client", "hyperborea-server"]), key(rng))
        }
        6 => format!("{}:{}", gen::word(rng, 12), rng.below(65536)),
        _ => {
            let (scheme, _) = rng.pick(SCHEMES);
            let prefix = if rng.chance(40) { *rng.pick(&["thin:", "thick:", "server:", "file:"]) } else { "" };
            format!("{scheme}://{prefix}{}", key(rng))
        }
    }
}

fn c22_parse(job: &mut Job) {
    let ctx = job.ctx;
    for _ in 0..20 {
        let uri = uri(&mut job.rng);
        let expected = expected(&uri);
        let results = [
            got(uri.parse::<Address>()),
            got(parse_uri(&uri)),
            got(parse_uri(uri.clone())),
        ];
        ctx.observe(&uri);
        ctx.count(match &expected {
            Parsed::Client(..) => "client addresses",
            Parsed::Http(_) | Parsed::Https(_) => "HTTP addresses",
            Parsed::Raw(_) => "raw addresses",
            _ => "invalid addresses",
        }, 1);
        ctx.sample("parse", || json!([uri, format!("{expected:?}")]));
        for got in results {
            if got != expected && expected != Parsed::Any {
                return job.fail("an address parses to something else than it says", json!({ "address": uri, "expected": format!("{expected:?}"), "got": format!("{got:?}") }));
            }
        }
    }
}

fn show(result: Result<String, MiddlewareError>) -> Result<String, String> {
    result.map_err(|err| match err {
        MiddlewareError::RequestFailed { status, .. } => format!("status {}", status.to_code()),
        MiddlewareError::CryptographyError(_) => "invalid key".to_string(),
        other => format!("{other:?}"),
    })
}

/// Resolution over real servers with clients of every type.
fn c22_resolve(job: &mut Job) {
    let ctx = job.ctx;
    let mut rng = job.rng.fork();
    let net = Net::new();

    block_on(async {
        let n = rng.range(1, 4) as usize;
        let mut hosts = Vec::new();
        for i in 0..n {
            let dir = ctx.fresh_dir("host");
            let name = match rng.below(8) {
                0 => format!("h{i}"),
                1 => format!("h{i}.example.org/"),
                2 => format!("h{i}.example.org/base"),
                3 => format!("[::{i}]:80"),
                4 => format!("H{i}.Example.org:80"),
                5 => format!("сервер-{i}"),
                _ => format!("h{i}.example.org:{i}"),
            };
            hosts.push(Host::start(&net, &name, Party::new(&mut rng).secret, dir).await);
        }
        let mut edges: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n];
        for i in 0..n {
            for j in 0..n {
                if i != j && rng.chance(50) {
                    if hosts[i].driver.router().index_server(ServerRecord::new(hosts[j].public(), &hosts[j].name)).await.is_err() {
                        return job.fail("a server could not be registered", json!({}));
                    }
                    edges[i].insert(j);
                }
            }
        }

        struct Registered {
            key: String,
            kind: &'static str,
            /// servers with a record of it, and where it may say the client is
            known: BTreeMap<usize, BTreeSet<usize>>,
        }
        let mut clients: Vec<Registered> = Vec::new();
        let mut resolvers: Vec<(usize, Connected)> = Vec::new();

        for c in 0..rng.range(1, 5) {
            let party = Party::new(&mut rng);
            let (kind, client_type) = *rng.pick(&[("thin", ClientType::Thin), ("thick", ClientType::Thick), ("server", ClientType::Server), ("file", ClientType::File)]);
            let address = if rng.bool() { Some(gen::word(&mut rng, 10)) } else { None };
            let at = rng.below(n as u64) as usize;
            let client: ClientMiddleware<MemClient> = ClientMiddleware::new(net.client(c as u8), ClientDriver::new(ClientInfo::new(client_type, address), party.secret.clone()));
            let connected = match client.connect(&hosts[at].name).await {
                Ok(connected) => connected,
                Err(err) => return job.fail("an honest connection was refused", json!(err.to_string())),
            };
            let mut known: BTreeMap<usize, BTreeSet<usize>> = [(at, [at].into())].into();
            for j in 0..n {
                if j != at && rng.chance(25) {
                    if let Err(err) = connected.announce(format!("http://{}", hosts[j].name)).await {
                        return job.fail("an honest announcement was refused", json!(err.to_string()));
                    }
                    known.insert(j, [at].into());
                    // an announcement also tells the server
                    if hosts[j].driver.router().servers().await.is_ok_and(|l| l.iter().any(|s| s.public_key == hosts[at].public())) {
                        edges[j].insert(at);
                    }
                }
            }
            clients.push(Registered { key: party.b64.clone(), kind, known });
            resolvers.push((at, connected));
        }

        for _ in 0..12 {
            // a client moves on, and tells some of the servers
            if rng.chance(20) {
                let i = rng.below(clients.len() as u64) as usize;
                let (at, connected) = resolvers.swap_remove(i);
                let last = clients.pop().expect("client");
                let mut client = if i < clients.len() { std::mem::replace(&mut clients[i], last) } else { last };
                let free = match connected.disconnect().await {
                    Ok(free) => free,
                    Err(err) => return job.fail("an honest disconnection was refused", json!(err.to_string())),
                };
                client.known.remove(&at);
                let to = rng.below(n as u64) as usize;
                let connected = match free.connect(&hosts[to].name).await {
                    Ok(connected) => connected,
                    Err(err) => return job.fail("an honest connection was refused", json!(err.to_string())),
                };
                client.known.entry(to).or_default().insert(to);
                for j in 0..n {
                    if j != to && rng.chance(40) {
                        if let Err(err) = connected.announce(format!("http://{}", hosts[j].name)).await {
                            return job.fail("an honest announcement was refused", json!(err.to_string()));
                        }
                        client.known.insert(j, [to].into());
                    }
                }
                clients.push(client);
                resolvers.push((to, connected));
                ctx.count("clients moved", 1);
            }

            let (from, resolver) = rng.pick(&resolvers);
            let from = *from;
            net.take_log();
            let (uri, expected, quiet) = match rng.below(8) {
                0 => {
                    let rest = gen::string(&mut rng, 30);
                    let scheme = *rng.pick(&["http", "https"]);
                    (format!("{scheme}://{rest}"), vec![Ok(format!("{scheme}://{rest}"))], true)
                }
                1 => {
                    let text = gen::string(&mut rng, 20).replace("://", "");
                    (text.clone(), vec![Ok(text)], true)
                }
                2 => {
                    let text = format!("{}://{}", gen::word(&mut rng, 3).to_uppercase(), gen::string(&mut rng, 20));
                    (text.clone(), vec![Ok(text)], true)
                }
                3 => {
                    let (scheme, _) = rng.pick(SCHEMES);
                    (format!("{scheme}://{}", gen::word(&mut rng, 20)), vec![Err("invalid key".to_string())], true)
                }
                _ => {
                    let unknown = Registered { key: Party::new(&mut rng).b64, kind: "thin", known: BTreeMap::new() };
                    let client = if rng.chance(85) { rng.pick(&clients) } else { &unknown };
                    let (scheme, fixed) = *rng.pick(SCHEMES);
                    let (prefix, kind) = match fixed {
                        Some(kind) => (String::new(), Some(kind)),
                        None => match rng.below(3) {
                            0 => (String::new(), None),
                            1 => (format!("{}:", client.kind), Some(client.kind)),
                            _ => {
                                let kind = *rng.pick(&["thin", "thick", "server", "file"]);
                                (format!("{kind}:"), Some(kind))
                            }
                        },
                    };
                    let mut reached = BTreeSet::new();
                    let mut queue = vec![from];
                    while let Some(i) = queue.pop() {
                        if reached.insert(i) {
                            queue.extend(edges[i].iter().copied());
                        }
                    }
                    let places: BTreeSet<usize> = client.known.iter().filter(|(i, _)| reached.contains(i)).flat_map(|(_, at)| at.iter().copied()).collect();
                    let mut expected: Vec<Result<String, String>> = places.iter().map(|i| Ok(format!("http://{}", hosts[*i].name))).collect();
                    if expected.is_empty() || kind.is_some_and(|kind| kind != client.kind) {
                        expected = vec![Err("status 311".to_string())];
                    }
                    (format!("{scheme}://{prefix}{}", client.key), expected, false)
                }
            };
            let first = show(resolve_uri(&uri, resolver).await);
            let second = match parse_uri(&uri) {
                Ok(address) => show(address.resolve(resolver).await),
                Err(_) => Err("invalid key".to_string()),
            };
            let log = net.take_log();
            ctx.observe(&(job.index, &uri));
            ctx.count(if expected[0].is_ok() { "addresses resolved" } else { "addresses refused" }, 1);
            let detail = || json!({ "address": uri, "expected": format!("{expected:?}"), "got": format!("{first:?}, {second:?}"), "from": hosts[from].name, "announced": format!("{edges:?}"),
                "clients": clients.iter().map(|c| json!([c.key, c.kind, format!("{:?}", c.known)])).collect::<Vec<_>>() });
            if !expected.contains(&first) || !expected.contains(&second) {
                return job.fail("an address resolves to something else than it says", detail());
            }
            if quiet && !log.is_empty() {
                return job.fail("resolving a plain address asked the network", detail());
            }
        }
        for host in hosts {
            let _ = std::fs::remove_dir_all(host.dir);
        }
    });
}

pub fn c22(ctx: &Ctx) {
    ctx.cases("parse", ctx.scale(3000, 60_000), c22_parse);
    ctx.cases("resolve", ctx.scale(250, 4000), c22_resolve);
    ctx.require("client addresses", 3000);
    ctx.require("invalid addresses", 1000);
    ctx.require("raw addresses", 1000);
    ctx.require("HTTP addresses", 1000);
    ctx.require("addresses resolved", 500);
    ctx.require("addresses refused", 200);
    ctx.require("clients moved", 200);
}

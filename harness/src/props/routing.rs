//! C13: the routing table read and changed by many tasks at the same time.
//! Every record is a register with one writer; calls and returns are recorded
//! at the table's interface and judged offline.

use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Barrier, Mutex};

use hyperborealib::prelude::*;
use hyperborealib::rest_api::types::{Client as ClientRecord, Server as ServerRecord};
use serde_json::{json, Value as Json};

use crate::ctx::{block_on, hash_of, Ctx, Job};
use crate::gen::Rng;
use crate::net::{Host, Net};
use crate::props::server::{seed, success, Party};
use crate::refimpl as r;
use crate::shim;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Table {
    Local,
    Remote,
    Servers,
}

type Register = (Table, usize);

#[derive(Clone, Debug)]
struct Write {
    call: u64,
    ret: u64,
    /// version number, or none for a removal
    value: Option<u64>,
}

#[derive(Clone, Debug)]
struct Read {
    call: u64,
    ret: u64,
    value: Option<u64>,
    /// a list may miss a record while that record is being changed
    list: bool,
    thread: usize,
}

#[derive(Default)]
struct Log {
    writes: BTreeMap<Register, Vec<Write>>,
    reads: BTreeMap<Register, Vec<Read>>,
    /// lists that held the same version of a record twice
    doubles: Vec<(Register, u64, u64)>,
    problems: Vec<(String, Json)>,
}

struct World {
    router: GlobalTableRouter,
    server: Option<(Net, Party)>,
    dir: PathBuf,
    parties: Vec<Party>,
    home: Party,
    clock: AtomicU64,
    log: Mutex<Log>,
}

const BASE: u64 = 1_700_000_000;

/// The record of party `i` in its `version`; every part of it names it.
fn record(world: &World, table: Table, i: usize, version: u64) -> (Json, Json) {
    let party = &world.parties[i];
    let home = match (&world.server, table) {
        (Some((_, server)), Table::Local) => server,
        _ => &world.home,
    };
    let info = r::info_json(["thin", "thick", "server", "file"][i % 4], Some(&format!("v{version}{}", "x".repeat((version % 7 * 40) as usize))));
    let client = match table {
        Table::Servers => Json::Null,
        _ => r::client_json(&party.raw, BASE + version, &home.public, &info),
    };
    let server = match table {
        Table::Local => Json::Null,
        Table::Remote => r::server_json(&home.public, &format!("v{version}")),
        Table::Servers => r::server_json(&party.public, &format!("v{version}{}", "y".repeat((version % 5 * 60) as usize))),
    };
    (client, server)
}

/// Which party and version is this, if it is exactly what was registered?
fn recognise(world: &World, table: Table, client: &Json, server: &Json) -> Option<(usize, u64)> {
    let key = if table == Table::Servers { &server["public_key"] } else { &client["public_key"] };
    let i = world.parties.iter().position(|p| key == p.b64.as_str())?;
    let text = if table == Table::Servers { server["address"].as_str()? } else { client["client"]["address"].as_str()? };
    let version = text.strip_prefix('v')?.trim_end_matches(['x', 'y']).parse().ok()?;
    let (want_client, want_server) = record(world, table, i, version);
    // certificate signatures are made anew by `record`: compare what they sign
    let strip = |mut json: Json| {
        if let Some(certificate) = json.get_mut("certificate").and_then(Json::as_object_mut) {
            certificate.remove("sign");
        }
        json
    };
    let genuine = table == Table::Servers || {
        let token = r::unb64(client["certificate"]["token"].as_str()?)?;
        let sign = r::unb64(client["certificate"]["sign"].as_str()?)?;
        r::verify(&world.parties[i].public, &token, &sign)
    };
    let same = strip(client.clone()) == strip(want_client) && *server == want_server;
    if same && genuine { Some((i, version)) } else { None }
}

impl World {
    fn tick(&self) -> u64 {
        self.clock.fetch_add(1, Ordering::SeqCst)
    }

    fn problem(&self, what: &str, detail: Json) {
        let mut log = self.log.lock().unwrap();
        if log.problems.len() < 20 {
            log.problems.push((what.to_string(), detail));
        }
    }

    fn wrote(&self, register: Register, call: u64, ret: u64, value: Option<u64>) {
        self.log.lock().unwrap().writes.entry(register).or_default().push(Write { call, ret, value });
    }

    async fn register(&self, rng: &mut Rng, table: Table, i: usize, version: u64) {
        let (client, server) = record(self, table, i, version);
        let call;
        let result: Result<bool, String> = match &self.server {
            None => {
                let client = ClientRecord::from_json(&client).ok();
                let server = ServerRecord::from_json(&server).ok();
                call = self.tick();
                match table {
                    Table::Local => self.router.index_local_client(client.expect("record")).await,
                    Table::Remote => self.router.index_remote_client(client.expect("record"), server.expect("record")).await,
                    Table::Servers => self.router.index_server(server.expect("record")).await,
                }.map_err(|e| e.to_string())
            }
            Some((net, host)) => {
                let seed = seed(rng);
                let (path, body) = match table {
                    Table::Local => ("/api/v1/connect", json!({ "certificate": client["certificate"], "client": client["client"] })),
                    Table::Remote => ("/api/v1/announce", json!({ "announce": "client", "client": client, "server": server })),
                    Table::Servers => ("/api/v1/announce", json!({ "announce": "server", "server": server })),
                };
                let request = r::request_json(&self.parties[i].raw, seed, body);
                call = self.tick();
                let reply = net.post("h", path, &request).await;
                success(&reply, host, seed).map(|_| true)
            }
        };
        let ret = self.tick();
        match result {
            Ok(true) => self.wrote((table, i), call, ret, Some(version)),
            other => self.problem("a registration fails because of others running at the same time", json!({ "table": format!("{table:?}"), "result": format!("{other:?}") })),
        }
    }

    async fn disconnect(&self, rng: &mut Rng, i: usize) {
        let party = &self.parties[i];
        let call;
        let result: Result<(), String> = match &self.server {
            None => {
                call = self.tick();
                self.router.disconnect(&party.key).await.map_err(|e| e.to_string())
            }
            Some((net, host)) => {
                let seed = seed(rng);
                let request = r::request_json(&party.raw, seed, json!({}));
                call = self.tick();
                let reply = net.post("h", "/api/v1/disconnect", &request).await;
                success(&reply, host, seed).map(|_| ())
            }
        };
        let ret = self.tick();
        match result {
            Ok(()) => {
                for table in [Table::Local, Table::Remote, Table::Servers] {
                    self.wrote((table, i), call, ret, None);
                }
            }
            Err(err) => self.problem("a removal fails because of others running at the same time", json!({ "error": err })),
        }
    }

    /// One list: an observation of every register of the table.
    async fn list(&self, thread: usize, table: Table) {
        let call = self.tick();
        let result: Result<Vec<(Json, Json)>, String> = match (&self.server, table) {
            (Some((net, _)), Table::Local) => net.raw("h", "GET", "/api/v1/clients", None).await.value()
                .and_then(|json| Some(json["clients"].as_array()?.iter().map(|c| (c.clone(), Json::Null)).collect()))
                .ok_or_else(|| "no list".into()),
            (Some((net, _)), Table::Servers) => net.raw("h", "GET", "/api/v1/servers", None).await.value()
                .and_then(|json| Some(json["servers"].as_array()?.iter().map(|s| (Json::Null, s.clone())).collect()))
                .ok_or_else(|| "no list".into()),
            (_, Table::Local) => self.router.local_clients().await.map_err(|e| e.to_string())
                .map(|list| list.iter().map(|c| (c.to_json().unwrap_or_default(), Json::Null)).collect()),
            (_, Table::Remote) => self.router.remote_clients().await.map_err(|e| e.to_string())
                .map(|list| list.iter().map(|(c, s)| (c.to_json().unwrap_or_default(), s.to_json().unwrap_or_default())).collect()),
            (_, Table::Servers) => self.router.servers().await.map_err(|e| e.to_string())
                .map(|list| list.iter().map(|s| (Json::Null, s.to_json().unwrap_or_default())).collect()),
        };
        let ret = self.tick();
        match result {
            Err(err) => self.problem("a list fails because of changes running at the same time", json!({ "table": format!("{table:?}"), "error": err })),
            Ok(list) => {
                let mut got: BTreeMap<usize, Vec<u64>> = BTreeMap::new();
                for (client, server) in &list {
                    match recognise(self, table, client, server) {
                        Some((i, version)) => got.entry(i).or_default().push(version),
                        None => self.problem("a list holds a record nobody registered", json!({ "client": client, "server": server })),
                    }
                }
                let mut log = self.log.lock().unwrap();
                for i in 0..self.parties.len() {
                    // a record that is replaced while the folder is read may
                    // show up in both versions; each of them is judged
                    let versions = got.remove(&i).unwrap_or_default();
                    let reads = log.reads.entry((table, i)).or_default();
                    if versions.is_empty() {
                        reads.push(Read { call, ret, value: None, list: true, thread });
                    }
                    for version in &versions {
                        reads.push(Read { call, ret, value: Some(*version), list: true, thread });
                    }
                    if versions.iter().collect::<BTreeSet<_>>().len() != versions.len() {
                        log.doubles.push(((table, i), call, ret));
                    }
                }
            }
        }
    }

    async fn lookup(&self, thread: usize, table: Table, i: usize) {
        let key = &self.parties[i].key;
        let kind = match thread % 3 {
            0 => None,
            _ => Some([ClientType::Thin, ClientType::Thick, ClientType::Server, ClientType::File][i % 4]),
        };
        let call = self.tick();
        let result: Result<Option<(Json, Json)>, String> = match table {
            Table::Local => self.router.lookup_local_client(key, kind).await.map_err(|e| e.to_string())
                .map(|o| o.map(|(c, _)| (c.to_json().unwrap_or_default(), Json::Null))),
            Table::Remote => self.router.lookup_remote_client(key, kind).await.map_err(|e| e.to_string())
                .map(|o| o.map(|(c, s, _)| (c.to_json().unwrap_or_default(), s.to_json().unwrap_or_default()))),
            Table::Servers => self.router.lookup_server(key).await.map_err(|e| e.to_string())
                .map(|o| o.map(|(s, _)| (Json::Null, s.to_json().unwrap_or_default()))),
        };
        let ret = self.tick();
        match result {
            Err(err) => self.problem("a lookup fails because of changes running at the same time", json!({ "table": format!("{table:?}"), "error": err })),
            Ok(found) => {
                let value = match found {
                    None => None,
                    Some((client, server)) => match recognise(self, table, &client, &server) {
                        Some((found, version)) if found == i => Some(version),
                        _ => {
                            self.problem("a lookup answers a record nobody registered", json!({ "client": client, "server": server }));
                            return;
                        }
                    },
                };
                self.log.lock().unwrap().reads.entry((table, i)).or_default().push(Read { call, ret, value, list: true, thread });
            }
        }
    }
}

/// Judge one register: writes of its only writer in order, reads by anyone.
fn judge(writes: &[Write], reads: &mut [Read]) -> Result<(u64, u64), (String, Json)> {
    reads.sort_by_key(|read| read.ret);
    let mut overlapping = 0;
    let mut changed_absent = 0;
    // (return of a read, write it observed)
    let mut observed: Vec<(u64, usize)> = Vec::new();
    for read in reads.iter() {
        // 0 is the initial absence, i the i-th write
        let base = writes.iter().take_while(|w| w.ret < read.call).count();
        let last = writes.iter().take_while(|w| w.call < read.ret).count();
        if last > base {
            overlapping += 1;
        }
        let floor = observed.iter().filter(|(ret, _)| *ret < read.call).map(|(_, i)| *i).max().unwrap_or(0);
        let value = |i: usize| if i == 0 { None } else { writes[i - 1].value };
        let fits: Vec<usize> = (base..=last).filter(|i| value(*i) == read.value).collect();
        let detail = || json!({
            "read": format!("{read:?}"), "writes": writes.iter().map(|w| format!("{w:?}")).collect::<Vec<_>>(),
        });
        if fits.is_empty() {
            if read.value.is_none() && read.list && last > base {
                changed_absent += 1;
                continue;
            }
            let what = match read.value {
                None => "a read misses a record that nobody was changing",
                Some(_) => "a read answers a record that was not current at any moment during it",
            };
            return Err((what.to_string(), detail()));
        }
        match fits.iter().find(|i| **i >= floor) {
            Some(i) => observed.push((read.ret, *i)),
            None if read.value.is_none() && read.list && last > base => changed_absent += 1,
            None => return Err(("a read answers an older record than an earlier read did".to_string(), detail())),
        }
    }
    Ok((overlapping, changed_absent))
}

fn c13_case(job: &mut Job) {
    let mut rng = job.rng.fork();
    let rng = &mut rng;
    let through_server = rng.chance(30);
    let changing = rng.range(2, 4) as usize;
    let servers = rng.range(1, 2) as usize;
    let fixed = *rng.pick(&[0, 1, 5, 20]);
    let parties: Vec<Party> = Party::several(rng, changing + servers + fixed);
    let dir = job.ctx.fresh_dir("table");

    let (router, server) = if through_server {
        let net = Net::new();
        let party = Party::new(rng);
        let host = block_on(Host::start(&net, "h", party.secret.clone(), dir.clone()));
        (host.driver.router().clone(), Some((net, party)))
    } else {
        (block_on(GlobalTableRouter::new(&dir)).expect("table"), None)
    };
    let world = World { router, server, dir, home: Party::new(rng), parties, clock: AtomicU64::new(1), log: Mutex::default() };

    // records nobody changes
    block_on(async {
        for i in changing + servers..world.parties.len() {
            for table in [Table::Local, Table::Remote, Table::Servers] {
                if rng.chance(60) {
                    world.register(rng, table, i, 1).await;
                }
            }
        }
    });

    let readers = rng.range(1, 3) as usize;
    let barrier = Barrier::new(changing + servers + readers);
    let writing = AtomicU64::new((changing + servers) as u64);
    let ops = rng.range(4, 10);

    std::thread::scope(|scope| {
        for i in 0..changing + servers {
            let mut rng = rng.fork();
            let (world, barrier, writing) = (&world, &barrier, &writing);
            scope.spawn(move || block_on(async move {
                barrier.wait();
                let rng = &mut rng;
                for version in 1..=ops {
                    if i < changing {
                        match rng.below(10) {
                            0..=4 => world.register(rng, Table::Local, i, version).await,
                            5..=6 => world.register(rng, Table::Remote, i, version).await,
                            _ => world.disconnect(rng, i).await,
                        }
                    } else if rng.chance(75) {
                        world.register(rng, Table::Servers, i, version).await;
                    } else {
                        world.disconnect(rng, i).await;
                    }
                    if rng.chance(20) {
                        // what was acknowledged is visible at once
                        world.lookup(i, Table::Local, i).await;
                    }
                }
                writing.fetch_sub(1, Ordering::SeqCst);
            }));
        }
        for t in 0..readers {
            let mut rng = rng.fork();
            let (world, barrier, writing) = (&world, &barrier, &writing);
            scope.spawn(move || block_on(async move {
                barrier.wait();
                let rng = &mut rng;
                let mut rounds = 0;
                while writing.load(Ordering::SeqCst) > 0 && rounds < 200 {
                    rounds += 1;
                    let table = *rng.pick(&[Table::Local, Table::Local, Table::Remote, Table::Servers]);
                    if rng.chance(60) {
                        world.list(100 + t, table).await;
                    } else {
                        let i = rng.below(world.parties.len() as u64) as usize;
                        world.lookup(100 + t, table, i).await;
                    }
                }
            }));
        }
    });

    // the final state, with nothing running
    block_on(async {
        for table in [Table::Local, Table::Remote, Table::Servers] {
            world.list(0, table).await;
        }
        let router = GlobalTableRouter::new(&world.router.storage_folder).await;
        if let Err(err) = router {
            world.problem("the table cannot be reopened", json!({ "error": err.to_string() }));
        }
    });

    let mut log = world.log.into_inner().unwrap();
    for (what, detail) in log.problems.drain(..) {
        job.fail(what, detail);
    }
    for (register, call, ret) in log.doubles.drain(..) {
        let changing = log.writes.get(&register).is_some_and(|writes| writes.iter().any(|w| w.call < ret && w.ret > call));
        job.check(changing, "a list holds a record twice", || json!({ "record": format!("{register:?}") }));
    }
    let mut overlapping = 0;
    let mut events = Vec::new();
    for (register, mut reads) in std::mem::take(&mut log.reads) {
        let empty = Vec::new();
        let mut writes = log.writes.get(&register).unwrap_or(&empty).clone();
        writes.sort_by_key(|w| w.call);
        job.ctx.count("reads judged", reads.len() as u64);
        job.ctx.count("changes recorded", writes.len() as u64);
        match judge(&writes, &mut reads) {
            Ok((over, absent)) => {
                overlapping += over;
                job.ctx.count("records missed while they were being changed", absent);
            }
            Err((what, detail)) => job.fail(what, json!({ "record": format!("{register:?}"), "through a server": through_server, "judgement": detail })),
        }
        events.extend(writes.iter().map(|w| (w.call, 0, register, w.value)));
        events.extend(reads.iter().map(|w| (w.call, w.thread, register, w.value)));
    }
    job.ctx.count("reads overlapping a change of their record", overlapping);
    if overlapping > 0 {
        events.sort();
        job.ctx.observe(&hash_of(&events));
    }
    job.ctx.sample("history", || json!(events.iter().take(60).map(|e| format!("{e:?}")).collect::<Vec<_>>()));
    let _ = std::fs::remove_dir_all(&world.dir);
}

/// Registrations whose callers go away in the middle. Such a one may take
/// effect at any later moment or never, but as each client's certificates are
/// made in order, never instead of a newer acknowledged one, and never in part.
fn c13_abandoned(job: &mut Job) {
    let mut rng = job.rng.fork();
    let rng = &mut rng;
    let changing = rng.range(2, 4) as usize;
    let fixed = *rng.pick(&[0, 3]);
    let parties: Vec<Party> = Party::several(rng, changing + fixed);
    let dir = job.ctx.fresh_dir("table");
    let (router, server) = if rng.chance(30) {
        let net = Net::new();
        let party = Party::new(rng);
        let host = block_on(Host::start(&net, "h", party.secret.clone(), dir.clone()));
        (host.driver.router().clone(), Some((net, party)))
    } else {
        (block_on(GlobalTableRouter::new(&dir)).expect("table"), None)
    };
    let world = World { router, server, dir, home: Party::new(rng), parties, clock: AtomicU64::new(1), log: Mutex::default() };
    block_on(async {
        for i in changing..world.parties.len() {
            for table in [Table::Local, Table::Remote, Table::Servers] {
                world.register(rng, table, i, 1).await;
            }
        }
    });
    let readers = rng.range(1, 2) as usize;
    let barrier = Barrier::new(changing + readers);
    let writing = AtomicU64::new(changing as u64);
    let abandoned: Mutex<Vec<(Register, u64, u64)>> = Mutex::default();
    let ops = rng.range(5, 12);

    let tables = [Table::Local, Table::Remote];
    std::thread::scope(|scope| {
        for i in 0..changing {
            let mut rng = rng.fork();
            let (world, barrier, writing, abandoned) = (&world, &barrier, &writing, &abandoned);
            scope.spawn(move || {
                // dropping the runtime lets what was started come to its end
                let runtime = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
                barrier.wait();
                runtime.block_on(async move {
                    let rng = &mut rng;
                    for version in 1..=ops {
                        let table = *rng.pick(&tables);
                        if rng.chance(45) {
                            let call = world.tick();
                            let patience = *rng.pick(&[1, 1, 1, 2, 3, 5]);
                            if crate::ctx::abandon(world.register(rng, table, i, version), patience).await.is_none() {
                                abandoned.lock().unwrap().push(((table, i), call, version));
                            }
                        } else {
                            world.register(rng, table, i, version).await;
                        }
                    }
                    writing.fetch_sub(1, Ordering::SeqCst);
                });
            });
        }
        for t in 0..readers {
            let mut rng = rng.fork();
            let (world, barrier, writing) = (&world, &barrier, &writing);
            scope.spawn(move || block_on(async move {
                barrier.wait();
                let rng = &mut rng;
                let mut rounds = 0;
                while writing.load(Ordering::SeqCst) > 0 && rounds < 200 {
                    rounds += 1;
                    let table = *rng.pick(&[Table::Local, Table::Remote, Table::Servers]);
                    if rng.chance(60) {
                        world.list(100 + t, table).await;
                    } else {
                        let i = rng.below(world.parties.len() as u64) as usize;
                        world.lookup(100 + t, table, i).await;
                    }
                }
            }));
        }
    });
    let settled = world.tick();
    block_on(async {
        for table in [Table::Local, Table::Remote, Table::Servers] {
            world.list(0, table).await;
        }
        for i in 0..changing {
            // and none of it stands in the way of the next one
            for table in tables {
                world.register(rng, table, i, ops + 1).await;
                world.lookup(0, table, i).await;
            }
        }
    });

    let mut log = world.log.into_inner().unwrap();
    for (what, detail) in log.problems.drain(..) {
        job.fail(what, detail);
    }
    let abandoned = abandoned.into_inner().unwrap();
    job.ctx.count("registrations abandoned", abandoned.len() as u64);
    for (register, reads) in &mut log.reads {
        reads.sort_by_key(|read| read.ret);
        let writes = log.writes.get(register).cloned().unwrap_or_default();
        let pending: Vec<(u64, u64)> = abandoned.iter().filter(|(r, _, _)| r == register).map(|(_, call, version)| (*call, *version)).collect();
        let mut seen: Vec<(u64, u64)> = Vec::new();
        for read in reads.iter() {
            let acknowledged = writes.iter().filter(|w| w.ret < read.call).filter_map(|w| w.value).max();
            let changing = read.call < settled && (pending.iter().any(|(call, _)| *call < read.ret) || writes.iter().any(|w| w.call < read.ret && w.ret > read.call));
            let fits = match read.value {
                None => acknowledged.is_none() || changing,
                Some(v) => {
                    let started = writes.iter().any(|w| w.value == Some(v) && w.call < read.ret) || pending.iter().any(|(call, version)| *version == v && *call < read.ret);
                    started && acknowledged.is_none_or(|a| v >= a) && seen.iter().all(|(ret, earlier)| *ret >= read.call || v >= *earlier)
                }
            };
            job.ctx.count("reads judged", 1);
            job.check(fits, "with abandoned registrations a read answers what was not current", || json!({
                "record": format!("{register:?}"), "read": format!("{read:?}"), "abandoned (call, version)": pending, "settled": settled,
                "writes": writes.iter().map(|w| format!("{w:?}")).collect::<Vec<_>>(), "earlier": seen,
            }));
            if let Some(v) = read.value {
                seen.push((read.ret, v));
            }
        }
        job.ctx.observe(&hash_of(&(register, format!("{reads:?}"), &pending)));
    }
    let _ = std::fs::remove_dir_all(&world.dir);
}

pub fn c13(ctx: &Ctx) {
    if !shim::loaded() {
        ctx.error("the file-system shim is not loaded");
        return;
    }
    shim::delays(&ctx.scratch, 120, 300, ctx.seed);
    ctx.cases_on(4, "history", ctx.scale(400, 30_000), c13_case);
    ctx.cases_on(4, "abandoned", ctx.scale(160, 20_000), c13_abandoned);
    ctx.require("registrations abandoned", 300);
    ctx.count("file-system calls delayed or watched", shim::get(0).max(0) as u64);
    shim::set(shim::OFF);
    ctx.require("reads judged", 5_000);
    ctx.require("reads overlapping a change of their record", 500);
    ctx.require("file-system calls delayed or watched", 5_000);
}


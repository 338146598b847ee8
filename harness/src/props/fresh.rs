//! C24: proof seeds and keys are new, unpredictable and full-range. Values are
//! taken where users get them (function calls, requests on the wire, server
//! infos), in sequence, in threads, in processes, and in processes for which
//! everything but the kernel's entropy is the same.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

use hyperborealib::prelude::*;
use serde_json::{json, Value as Json};

use crate::ctx::{block_on, Ctx, Job};
use crate::gen;
use crate::net::{Host, Net};

// ---------------------------------------------------------------- streams

/// Values made one after another by one thread.
#[derive(Default)]
struct Pool {
    /// source -> streams of values
    seeds: BTreeMap<String, Vec<Vec<u64>>>,
    keys: BTreeMap<String, Vec<Vec<[u8; 32]>>>,
}

fn secret_of(secret: &SecretKey) -> [u8; 32] {
    secret.serialize().try_into().expect("32 bytes")
}

fn seed_sources() -> Vec<(&'static str, fn() -> u64)> {
    fn request() -> u64 {
        Request::new(&fixed(), ()).proof_seed
    }
    fn info() -> u64 {
        InfoResponse::new(&fixed()).proof_seed
    }
    vec![("safe_random_u64_long", safe_random_u64_long), ("Request::new", request), ("InfoResponse::new", info)]
}

fn key_sources() -> Vec<(&'static str, fn() -> [u8; 32])> {
    fn random() -> [u8; 32] {
        secret_of(&SecretKey::random())
    }
    fn driver() -> [u8; 32] {
        secret_of(ClientDriver::random().secret_key())
    }
    fn params() -> [u8; 32] {
        secret_of(&ServerParams::default().secret_key)
    }
    vec![("SecretKey::random", random), ("ClientDriver::random", driver), ("ServerParams::default", params)]
}

/// The same signer every time: nothing but the seed may differ.
fn fixed() -> SecretKey {
    SecretKey::deserialize([7u8; 32]).expect("key")
}

// -------------------------------------------------------------- statistics

/// How far a sum of `n` fair coins may stray: 8 standard deviations, which a
/// fair coin exceeds with probability below 1e-14.
fn fair(ones: u64, n: u64) -> bool {
    let stray = (ones as f64 - n as f64 / 2.0).abs();
    stray <= 8.0 * (n as f64 / 4.0).sqrt()
}

/// Length of the shortest linear feedback register that makes the sequence
/// (Berlekamp-Massey): half the length for random bits, the size of the state
/// for linear generators.
fn linear_complexity(bits: &[bool]) -> usize {
    let words = bits.len() / 64 + 2;
    let (mut c, mut b, mut window) = (vec![0u64; words], vec![0u64; words], vec![0u64; words]);
    (c[0], b[0]) = (1, 1);
    let (mut length, mut gap) = (0usize, 1usize);
    for (n, bit) in bits.iter().enumerate() {
        let used = n / 64 + 1;
        let mut carry = *bit as u64;
        for word in window[..=used.min(words - 1)].iter_mut() {
            let next = *word >> 63;
            *word = *word << 1 | carry;
            carry = next;
        }
        let reach = length / 64 + 1;
        let odd = c[..reach].iter().zip(&window[..reach]).fold(0, |sum, (a, b)| sum ^ (a & b)).count_ones() & 1;
        if odd == 0 {
            gap += 1;
            continue;
        }
        let previous = (2 * length <= n).then(|| c.clone());
        let (whole, part) = (gap / 64, gap % 64);
        for i in (whole..words).rev() {
            let mut word = b[i - whole] << part;
            if part > 0 && i > whole {
                word |= b[i - whole - 1] >> (64 - part);
            }
            c[i] ^= word;
        }
        match previous {
            Some(previous) => {
                length = n + 1 - length;
                b = previous;
                gap = 1;
            }
            None => gap += 1,
        }
    }
    length
}

/// Judge bit streams: every bit is fair, independent of every other bit of
/// the same value and of its successor, and bytes are evenly distributed.
fn judge(width: usize, streams: &[Vec<Vec<u64>>], mut fail: impl FnMut(String)) -> u64 {
    // a value is a slice of words; bit i of it is bit i % 64 of word i / 64
    let bit = |value: &[u64], i: usize| value[i / 64] >> (i % 64) & 1;
    let n: u64 = streams.iter().map(|s| s.len() as u64).sum();
    let mut tests = 0;

    let mut ones = vec![0u64; width];
    let mut turns = vec![0u64; width];
    let mut steps = 0u64;
    for stream in streams {
        for value in stream {
            for (i, count) in ones.iter_mut().enumerate() {
                *count += bit(value, i);
            }
        }
        for pair in stream.windows(2) {
            steps += 1;
            for (i, count) in turns.iter_mut().enumerate() {
                *count += bit(&pair[0], i) ^ bit(&pair[1], i);
            }
        }
    }
    for i in 0..width {
        tests += 1;
        if !fair(ones[i], n) {
            fail(format!("bit {i} is set in {} of {n} values", ones[i]));
        }
        if steps > 300 {
            tests += 1;
            if !fair(turns[i], steps) {
                fail(format!("bit {i} changes in {} of {steps} successive values", turns[i]));
            }
        }
    }

    // pairs of bits: a sample of the values, in columns
    let sample: Vec<&Vec<u64>> = streams.iter().flatten().take(16_384).collect();
    let columns: Vec<Vec<u64>> = (0..width).map(|i| {
        sample.chunks(64).map(|chunk| chunk.iter().enumerate().fold(0, |word, (k, value)| word | bit(value, i) << k)).collect()
    }).collect();
    for i in 0..width {
        for j in 0..i {
            tests += 1;
            let unequal: u64 = columns[i].iter().zip(&columns[j]).map(|(a, b)| (a ^ b).count_ones() as u64).sum();
            if !fair(unequal, sample.len() as u64) {
                fail(format!("bits {j} and {i} differ in {unequal} of {} values", sample.len()));
            }
        }
    }

    // whole bytes
    if n >= 256 * 40 {
        for byte in 0..width / 8 {
            let mut buckets = [0u64; 256];
            for value in streams.iter().flatten() {
                buckets[(value[byte / 8] >> (byte % 8 * 8) & 0xff) as usize] += 1;
            }
            tests += 1;
            let expected = n as f64 / 256.0;
            let chi: f64 = buckets.iter().map(|b| (*b as f64 - expected).powi(2) / expected).sum();
            if chi > 255.0 + 12.0 * (2.0 * 255.0f64).sqrt() {
                fail(format!("byte {byte} is unevenly distributed (chi square {chi:.0} with 255 degrees)"));
            }
        }
    }
    tests
}

/// Values must not share a half more often than chance has it.
fn halves(name: &str, values: &[u64], mut fail: impl FnMut(String)) -> u64 {
    let n = values.len() as f64;
    for (what, bits, half) in [("upper", 31, 32u32), ("lower", 32, 0u32)] {
        let mut sorted: Vec<u32> = values.iter().map(|v| (v >> half) as u32).collect();
        sorted.sort_unstable();
        let equal = sorted.windows(2).filter(|w| w[0] == w[1]).count() as f64;
        let expected = n * n / 2.0 / 2f64.powi(bits);
        if equal > expected + 12.0 * expected.sqrt() + 25.0 {
            fail(format!("{name}: {equal} values share their {what} half with another, expected {expected:.1}"));
        }
    }
    2
}

// ------------------------------------------------------------ the monitors

fn note_seeds(pool: &Mutex<Pool>, source: &str, values: Vec<u64>) {
    pool.lock().unwrap().seeds.entry(source.to_string()).or_default().push(values);
}

fn note_keys(pool: &Mutex<Pool>, source: &str, values: Vec<[u8; 32]>) {
    pool.lock().unwrap().keys.entry(source.to_string()).or_default().push(values);
}

/// Full sessions over the in-memory network: every seed that is sent.
fn session(job: &mut Job, pool: &Mutex<Pool>) {
    let mut rng = job.rng.fork();
    let rng = &mut rng;
    let net = Net::new();
    net.yields(rng.u64() | 1);
    let dir = job.ctx.fresh_dir("fresh");
    let mut seen: BTreeMap<String, Vec<u64>> = BTreeMap::new();

    block_on(async {
        let a = Host::start(&net, "a", SecretKey::random(), dir.join("a")).await;
        let b = Host::start(&net, "b", SecretKey::random(), dir.join("b")).await;
        let announced = Request::new(&b.secret, AnnounceRequestBody::server(Server::new(b.public(), "b")));
        net.post("a", "/api/v1/announce", &announced.to_json().expect("json")).await;
        net.take_log();

        let log = RefCell::new(Vec::new());
        // a lookup sends its one request to every server it asks: within one
        // operation equal requests are the same request
        let done = || {
            let mut requests = BTreeSet::new();
            for exchange in net.take_log() {
                let host = exchange.host.clone();
                if let Some(json) = &exchange.request {
                    if requests.insert(json.to_string()) {
                        log.borrow_mut().push((format!("{} {}", exchange.method, exchange.path), json["proof"]["seed"].as_u64()));
                    }
                }
                if let Some(json) = exchange.reply.value().filter(|json| json["proof"].get("seed").is_some()) {
                    if requests.insert(format!("{host} {json}")) {
                        log.borrow_mut().push((format!("reply to {} {}", exchange.method, exchange.path), json["proof"]["seed"].as_u64()));
                    } else {
                        job.fail("two answers with the same seed", json.clone());
                    }
                }
            }
        };

        for round in 0..3 {
            let me = ClientMiddleware::new(net.client(1 + round), ClientDriver::random());
            let other = ClientMiddleware::new(net.client(10 + round), ClientDriver::random());
            for host in ["a", "b"] {
                let _ = me.get_info(host).await;
                done();
                let _ = me.get_clients(host).await;
                done();
                let _ = me.get_servers(host).await;
                done();
            }
            let (Ok(me), Ok(other)) = (me.connect_to("a", a.public()).await, other.connect("b").await) else { continue };
            done();
            let key = other.driver().secret_key().public_key();
            let _ = me.announce("http://a").await;
            done();
            let _ = other.announce("http://a").await;
            done();
            for _ in 0..2 {
                let _ = me.lookup(key.clone(), None).await;
                done();
            }
            let _ = other.lookup(me.driver().secret_key().public_key(), Some(ClientType::Thin)).await;
            done();
            for n in 0..3 {
                let encoding = gen::encoding(rng);
                let message = Message::create(me.driver().secret_key(), &key, format!("{n}").as_bytes(), encoding, CompressionLevel::Fast).expect("message");
                for _ in 0..2 {
                    let _ = me.send("http://b", key.clone(), "x", message.clone()).await;
                    done();
                }
                let _ = other.poll("x", Some(1)).await;
                done();
            }
            let _ = me.disconnect().await;
            done();
            let _ = other.disconnect().await;
            done();
        }
        let driver = a.driver.clone();
        let _ = net.bounded(50, driver.traversal().traverse(net.client(200), &driver)).await;
        done();
        for (source, value) in log.into_inner() {
            match value {
                Some(value) => seen.entry(source).or_default().push(value),
                None => job.fail("a request without a proof seed", json!(source)),
            }
        }
    });

    let _ = std::fs::remove_dir_all(dir);
    for (source, values) in seen {
        note_seeds(pool, &source, values);
    }
}

/// What one process made, and its threads, and what became of it after fork.
pub fn child(args: &[String]) {
    let per = args[0].parse::<usize>().expect("count");

    fn some(n: usize) -> Json {
        let mut out = serde_json::Map::new();
        for (name, make) in seed_sources() {
            out.insert(name.into(), json!((0..n).map(|_| make()).collect::<Vec<u64>>()));
        }
        for (name, make) in key_sources() {
            out.insert(name.into(), json!((0..n).map(|_| make().to_vec()).collect::<Vec<Vec<u8>>>()));
        }
        Json::Object(out)
    }
    fn say(what: &str, values: Json) {
        let line = format!("{}\n", json!({ "part": what, "values": values }));
        std::io::stdout().write_all(line.as_bytes()).expect("stdout");
    }

    say("first", some(per));
    let parts: Vec<Json> = std::thread::scope(|scope| {
        let threads: Vec<_> = (0..4).map(|_| scope.spawn(move || some(per))).collect();
        threads.into_iter().map(|t| t.join().expect("thread")).collect()
    });
    for part in parts {
        say("thread", part);
    }

    // the process divides: only this thread remains in the copy
    for _ in 0..2 {
        match unsafe { libc::fork() } {
            0 => {
                say("copy", some(per));
                unsafe { libc::_exit(0) };
            }
            pid if pid > 0 => {
                let mut status = 0;
                unsafe { libc::waitpid(pid, &mut status, 0) };
                if status != 0 {
                    std::process::exit(3);
                }
            }
            _ => std::process::exit(3),
        }
    }
    say("after", some(per));
}

fn process(job: &mut Job, pool: &Mutex<Pool>, frozen: Option<&str>, per: usize) {
    use std::os::unix::process::CommandExt;
    let mut command = Command::new(std::env::current_exe().expect("exe"));
    command.args(["child", "fresh", &per.to_string()]).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    if let Some(shim) = frozen {
        command.env("LD_PRELOAD", shim);
        unsafe {
            command.pre_exec(|| {
                // the same addresses in every process
                libc::personality(libc::ADDR_NO_RANDOMIZE as libc::c_ulong);
                Ok(())
            });
        }
    }
    let output = match command.output() {
        Ok(output) if output.status.success() => output,
        other => {
            job.ctx.error(format!("a generating process failed: {other:?}"));
            return;
        }
    };
    let text = String::from_utf8_lossy(&output.stdout);
    for line in text.lines() {
        let Ok(line) = serde_json::from_str::<Json>(line) else {
            job.ctx.error(format!("unreadable line of a generating process: {line}"));
            return;
        };
        job.ctx.count(&format!("{} parts: {}", if frozen.is_some() { "frozen process" } else { "process" }, line["part"].as_str().unwrap_or("?")), 1);
        for (name, values) in line["values"].as_object().into_iter().flatten() {
            let values = values.as_array().cloned().unwrap_or_default();
            if values.first().is_some_and(|v| v.is_u64()) {
                note_seeds(pool, &format!("processes: {name}"), values.iter().filter_map(Json::as_u64).collect());
            } else {
                note_keys(pool, &format!("processes: {name}"), values.iter().map(|v| {
                    let bytes: Vec<u8> = v.as_array().into_iter().flatten().map(|b| b.as_u64().unwrap_or(0) as u8).collect();
                    bytes.try_into().expect("32 bytes")
                }).collect());
            }
        }
    }
}

fn verdict(ctx: &Ctx, pool: Pool) {
    let mut tests = 0u64;
    let fail = |source: &str, what: String| ctx.violation("statistics", 0, format!("{source}: {what}"), json!(null));

    // nothing repeats, whoever made it
    let mut owners: HashMap<u64, &str> = HashMap::new();
    let mut all = Vec::new();
    for (source, streams) in &pool.seeds {
        let mut n = 0;
        for seed in streams.iter().flatten() {
            n += 1;
            ctx.observe(seed);
            all.push(*seed);
            if *seed < 1 << 63 {
                fail(source, format!("the seed {seed:#x} has no top bit"));
            }
            if let Some(other) = owners.insert(*seed, source) {
                fail(source, format!("the seed {seed:#x} was also made by: {other}"));
            }
        }
        ctx.count(&format!("seeds: {source}"), n);
    }
    let mut owners: HashMap<[u8; 32], &str> = HashMap::new();
    for (source, streams) in &pool.keys {
        let mut n = 0;
        for key in streams.iter().flatten() {
            n += 1;
            ctx.observe(key);
            if let Some(other) = owners.insert(*key, source) {
                fail(source, format!("a key was also made by: {other}"));
            }
        }
        ctx.count(&format!("keys: {source}"), n);
    }

    for (source, streams) in &pool.seeds {
        let streams: Vec<Vec<Vec<u64>>> = streams.iter().map(|s| s.iter().map(|v| vec![*v & !(1 << 63)]).collect()).collect();
        if streams.iter().map(Vec::len).sum::<usize>() >= 300 {
            tests += judge(63, &streams, |what| fail(source, what));
        } else {
            ctx.error(format!("too few seeds to judge: {source}"));
        }
    }
    for (source, streams) in &pool.keys {
        let streams: Vec<Vec<Vec<u64>>> = streams.iter().map(|s| s.iter().map(|key| {
            key.chunks(8).map(|c| u64::from_be_bytes(c.try_into().expect("8"))).collect()
        }).collect()).collect();
        if streams.iter().map(Vec::len).sum::<usize>() >= 300 {
            tests += judge(256, &streams, |what| fail(source, what));
        } else {
            ctx.error(format!("too few keys to judge: {source}"));
        }
    }
    tests += halves("seeds", &all, |what| fail("all", what));

    // no linear generator behind it: the longest stream of each source
    for (source, streams) in &pool.seeds {
        let Some(longest) = streams.iter().max_by_key(|s| s.len()).filter(|s| s.len() >= 3000) else { continue };
        for bit in [0, 1, 31, 62] {
            let bits: Vec<bool> = longest.iter().take(45_000).map(|v| v >> bit & 1 == 1).collect();
            tests += 1;
            let found = linear_complexity(&bits);
            if found + 60 < bits.len() / 2 {
                fail(source, format!("bit {bit} follows a linear recurrence of length {found}"));
            }
            ctx.count("linear complexity tests", 1);
        }
    }
    for (source, streams) in &pool.keys {
        let Some(longest) = streams.iter().max_by_key(|s| s.len()).filter(|s| s.len() >= 3000) else { continue };
        for bit in [0, 4, 7] {
            let bits: Vec<bool> = longest.iter().take(45_000).map(|key| key[31] >> bit & 1 == 1).collect();
            tests += 1;
            let found = linear_complexity(&bits);
            if found + 60 < bits.len() / 2 {
                fail(source, format!("bit {bit} of the last byte follows a linear recurrence of length {found}"));
            }
            ctx.count("linear complexity tests", 1);
        }
    }
    ctx.count("statistical tests", tests);
    ctx.sample("tests", || json!({ "statistical tests": tests, "sources": pool.seeds.keys().chain(pool.keys.keys()).collect::<Vec<_>>() }));
}

pub fn c24(ctx: &Ctx) {
    let pool = Mutex::new(Pool::default());
    let many = ctx.scale(45_000, 400_000) as usize;
    let signed = ctx.scale(3_500, 45_000) as usize;

    // all threads start together
    let barrier = AtomicU64::new(0);
    let threads = ctx.threads() as u64;
    ctx.cases_on(threads as usize, "threads", threads, |_| {
        barrier.fetch_add(1, Ordering::SeqCst);
        let start = std::time::Instant::now();
        while barrier.load(Ordering::SeqCst) < threads && start.elapsed().as_secs() < 2 && ctx.only.is_none() {
            std::hint::spin_loop();
        }
        for (i, (name, make)) in seed_sources().into_iter().enumerate() {
            note_seeds(&pool, name, (0..if i == 0 { many } else { signed }).map(|_| make()).collect());
        }
        for (i, (name, make)) in key_sources().into_iter().enumerate() {
            note_keys(&pool, name, (0..if i == 0 { many } else { signed }).map(|_| make()).collect());
        }
    });

    ctx.cases("session", ctx.scale(130, 2_000), |job| session(job, &pool));

    let frozen = std::env::var("HV_FROZEN").ok().filter(|s| !s.is_empty());
    if frozen.is_none() {
        ctx.error("the frozen-clock shim is not there");
    }
    let processes = ctx.scale(16, 200);
    ctx.cases("process", processes, |job| process(job, &pool, None, 25));
    ctx.cases("frozen process", processes, |job| process(job, &pool, frozen.as_deref(), 25));

    if ctx.only.is_none() {
        verdict(ctx, pool.into_inner().unwrap());
    }
    ctx.require("statistical tests", 100_000);
    ctx.require("linear complexity tests", 20);
    ctx.require("frozen process parts: copy", processes * 2);
    for path in ["announce", "connect", "disconnect", "lookup", "send", "poll"] {
        ctx.require(&format!("seeds: POST /api/v1/{path}"), 300);
    }
    ctx.require("seeds: reply to GET /api/v1/info", 300);
}

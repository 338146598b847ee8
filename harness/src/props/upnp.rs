//! C21: the UPnP port forwarder over a simulated gateway.

use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;

use easy_upnp::sim;
use hyperborealib::port_forward::{PortForwarder, Protocol, UpnpPortForwarder};
use serde_json::{json, Value as Json};

use crate::ctx::{block_on, Ctx, Job};
use crate::gen::Rng;

type Mapping = (u16, u8);

const TCP: u8 = 6;
const UDP: u8 = 17;

#[derive(Debug, Clone)]
enum Op {
    Open(u16, Protocol, Duration),
    Close(u16, Protocol),
    Discard,
}

fn numbers(protocol: Protocol) -> Vec<u8> {
    match protocol {
        Protocol::TCP => vec![TCP],
        Protocol::UDP => vec![UDP],
        Protocol::Both => vec![TCP, UDP],
    }
}

fn duration(rng: &mut Rng) -> Duration {
    match rng.below(12) {
        0 => Duration::ZERO,
        1 => Duration::from_nanos(1 + rng.below(999_999_999)),
        2 => Duration::from_secs(1),
        3 => Duration::new(rng.below(100_000), rng.below(1_000_000_000) as u32),
        4 => Duration::from_secs(u32::MAX as u64),
        5 => Duration::new(u32::MAX as u64 - rng.below(3), rng.below(1_000_000_000) as u32),
        6 => Duration::from_secs(u32::MAX as u64 + 1 + rng.below(1 << 33)),
        7 => Duration::MAX,
        8 => Duration::from_millis(rng.below(10_000)),
        _ => Duration::from_secs(rng.below(1 << 20)),
    }
}

/// The whole seconds a gateway may be asked for: rounded either way, never to
/// "forever" (zero), and the longest it can express beyond its range.
fn seconds(duration: Duration) -> (u32, u32) {
    let low = duration.as_secs().min(u32::MAX as u64) as u32;
    let high = if duration.subsec_nanos() > 0 { low.saturating_add(1) } else { low };
    (if duration.is_zero() { 0 } else { low.max(1) }, high)
}

fn protocol(rng: &mut Rng) -> Protocol {
    *rng.pick(&[Protocol::TCP, Protocol::UDP, Protocol::Both])
}

struct Model {
    /// mappings made and not yet removed
    known: BTreeMap<Mapping, (u32, u32)>,
    foreign: BTreeMap<Mapping, u32>,
}

impl Model {
    fn expected(&self) -> BTreeSet<Mapping> {
        self.known.keys().chain(self.foreign.keys()).copied().collect()
    }
}

/// Perform the operation and compare gateway, requests and result with the
/// model. Returns false after a violation.
fn step(job: &Job, forwarder: &UpnpPortForwarder, model: &mut Model, op: &Op, history: &[String]) -> bool {
    sim::with(|g| g.log.clear());

    let result = block_on(async {
        match op {
            Op::Open(port, protocol, duration) => forwarder.open(*port, *protocol, *duration).await,
            Op::Close(port, protocol) => forwarder.close(*port, *protocol).await,
            Op::Discard => forwarder.discard().await,
        }
    });

    let success = matches!(result, Ok(true));
    let (log, mappings) = sim::with(|g| (g.log.clone(), g.mappings.clone()));
    let known = format!("{:?}", model.known);
    let detail = |extra: Json| json!({
        "operation": format!("{op:?}"), "result": format!("{result:?}"), "requests": format!("{log:?}"),
        "gateway": format!("{mappings:?}"), "known": known, "history": history, "more": extra,
    });

    // the requests concern exactly what the operation is about
    let targets: BTreeSet<Mapping> = match op {
        Op::Open(port, protocol, _) => numbers(*protocol).into_iter().map(|n| (*port, n)).collect(),
        Op::Close(port, protocol) => numbers(*protocol).into_iter().map(|n| (*port, n)).filter(|m| model.known.contains_key(m)).collect(),
        Op::Discard => model.known.keys().copied().collect(),
    };
    let opening = matches!(op, Op::Open(..));

    for event in &log {
        if !targets.contains(&(event.port, event.proto)) || event.add != opening {
            job.fail("a gateway request for something the operation is not about", detail(json!(format!("{event:?}"))));
            return false;
        }
        if !event.any_address {
            job.fail("a gateway request for a particular interface nobody asked for", detail(json!(format!("{event:?}"))));
            return false;
        }
        if let Op::Open(_, _, duration) = op {
            let (low, high) = seconds(*duration);
            if event.duration < low || event.duration > high {
                job.fail("a mapping was requested for another duration", detail(json!({ "asked": event.duration, "wanted": [low, high] })));
                return false;
            }
        }
    }

    // what the gateway confirmed
    let confirmed: BTreeSet<Mapping> = log.iter().filter(|e| e.ok).map(|e| (e.port, e.proto)).collect();
    let tried: BTreeSet<Mapping> = log.iter().map(|e| (e.port, e.proto)).collect();

    job.ctx.count("gateway requests", log.len() as u64);
    job.ctx.count("gateway failures", log.iter().filter(|e| !e.ok).count() as u64);

    if success && confirmed != targets {
        job.fail("success was reported although the gateway did not confirm everything", detail(json!(null)));
        return false;
    }
    if !success && confirmed == targets && !targets.is_empty() {
        job.fail("failure was reported although the gateway confirmed everything", detail(json!(null)));
        return false;
    }
    if !opening && tried != targets {
        job.fail("closing or discarding did not attempt every mapping", detail(json!(null)));
        return false;
    }
    if matches!(op, Op::Discard | Op::Close(..)) && targets.is_empty() && result.is_err() {
        job.fail("closing nothing failed", detail(json!(null)));
        return false;
    }
    if tried.is_empty() && !targets.is_empty() {
        job.fail("the gateway was not asked", detail(json!(null)));
        return false;
    }

    match op {
        Op::Open(_, _, duration) => for mapping in &confirmed {
            model.known.insert(*mapping, seconds(*duration));
        },
        _ => for mapping in &confirmed {
            model.known.remove(mapping);
        },
    }

    let now: BTreeSet<Mapping> = mappings.keys().copied().collect();
    if now != model.expected() {
        job.fail("the gateway's mappings are not the ones opened and not yet closed", detail(json!({ "expected": format!("{:?}", model.expected()) })));
        return false;
    }
    true
}

fn history(job: &mut Job) {
    sim::reset();
    let forwarder = UpnpPortForwarder::new();
    let ports: Vec<u16> = (0..1 + job.rng.below(4)).map(|_| match job.rng.below(4) {
        0 => *job.rng.pick(&[0, 1, 80, 65535]),
        _ => job.rng.u64() as u16,
    }).collect();
    let foreign: BTreeMap<Mapping, u32> = (0..job.rng.below(3))
        .map(|_| ((job.rng.u64() as u16, *job.rng.pick(&[TCP, UDP])), 7))
        .filter(|((port, _), _)| !ports.contains(port))
        .collect();
    sim::with(|g| g.mappings.extend(foreign.clone()));

    let mut model = Model { known: BTreeMap::new(), foreign };
    let mut done = Vec::new();

    for _ in 0..3 + job.rng.below(25) {
        // failures: none, of random requests, of all requests for one mapping
        let mut script = Vec::new();
        let mut broken = BTreeSet::new();
        match job.rng.below(4) {
            0 => script = (0..6).map(|_| job.rng.below(2) == 0).collect(),
            1 => { broken.insert((*job.rng.pick(&ports), *job.rng.pick(&[TCP, UDP]))); }
            _ => (),
        }
        sim::with(|g| { g.script = script.clone().into(); g.broken = broken.clone(); });

        let port = match model.foreign.keys().next() {
            Some((port, _)) if job.rng.below(12) == 0 => *port,
            _ => *job.rng.pick(&ports),
        };
        let foreign = model.foreign.keys().any(|(p, _)| *p == port);
        let op = match job.rng.below(12) {
            0..=5 if !foreign => Op::Open(port, protocol(&mut job.rng), duration(&mut job.rng)),
            6..=10 => Op::Close(port, protocol(&mut job.rng)),
            _ if foreign => Op::Close(port, protocol(&mut job.rng)),
            _ => Op::Discard,
        };
        done.push(format!("{op:?} script={script:?} broken={broken:?}"));
        job.ctx.observe(&done);
        job.ctx.count(match op { Op::Open(..) => "opens", Op::Close(..) => "closes", Op::Discard => "discards" }, 1);
        if !step(job, &forwarder, &mut model, &op, &done) {
            return;
        }
    }

    // whatever happened before, a working gateway is left clean
    sim::with(|g| { g.script.clear(); g.broken.clear(); });
    let left = model.known.len() as u64;
    let known: Vec<Mapping> = model.known.keys().copied().collect();
    if job.rng.below(2) == 0 {
        for (port, number) in known {
            let protocol = if number == TCP { Protocol::TCP } else { Protocol::UDP };
            done.push(format!("final close {port} {protocol:?}"));
            if !step(job, &forwarder, &mut model, &Op::Close(port, protocol), &done) {
                return;
            }
        }
    } else {
        done.push("final discard".into());
        if !step(job, &forwarder, &mut model, &Op::Discard, &done) {
            return;
        }
    }
    job.ctx.count("mappings left for the end", left);
    job.ctx.sample("history", || json!(done));
}

/// Every failure pattern of the (at most eight) requests of a fixed story.
fn exhaustive(job: &mut Job) {
    let story = job.index >> 8;
    let pattern = job.index & 0xff;
    sim::reset();
    sim::with(|g| g.script = (0..8).map(|bit| pattern >> bit & 1 == 0).collect());
    let forwarder = UpnpPortForwarder::new();
    let mut model = Model { known: BTreeMap::new(), foreign: BTreeMap::new() };
    let hour = Duration::from_secs(3600);
    let ops = match story {
        0 => vec![Op::Open(1, Protocol::Both, hour), Op::Close(1, Protocol::Both), Op::Close(1, Protocol::Both), Op::Discard],
        1 => vec![Op::Open(1, Protocol::TCP, hour), Op::Open(1, Protocol::UDP, hour), Op::Open(2, Protocol::Both, hour), Op::Discard, Op::Discard],
        2 => vec![Op::Open(1, Protocol::Both, hour), Op::Close(1, Protocol::UDP), Op::Close(1, Protocol::TCP), Op::Discard, Op::Discard],
        3 => vec![Op::Open(1, Protocol::UDP, hour), Op::Close(1, Protocol::Both), Op::Open(1, Protocol::TCP, hour), Op::Close(1, Protocol::Both), Op::Discard],
        4 => vec![Op::Open(9, Protocol::TCP, hour), Op::Discard, Op::Discard, Op::Open(9, Protocol::TCP, hour), Op::Close(9, Protocol::TCP), Op::Discard],
        _ => vec![Op::Open(5, Protocol::Both, hour), Op::Open(5, Protocol::Both, Duration::from_secs(9)), Op::Close(5, Protocol::TCP), Op::Close(5, Protocol::Both), Op::Discard],
    };
    let mut done = vec![format!("failures {pattern:08b}")];
    for op in ops {
        done.push(format!("{op:?}"));
        if !step(job, &forwarder, &mut model, &op, &done) {
            return;
        }
    }
    sim::with(|g| g.script.clear());
    step(job, &forwarder, &mut model, &Op::Discard, &done);
    job.ctx.nontrivial(&(story, pattern));
    job.ctx.count("failure patterns", 1);
}

/// Threads sharing one forwarder: what is open in the end is known.
fn concurrent(job: &mut Job) {
    sim::reset();
    let forwarder = UpnpPortForwarder::new();
    let seeds: Vec<u64> = (0..4).map(|_| job.rng.u64()).collect();
    std::thread::scope(|scope| {
        for seed in &seeds {
            let forwarder = &forwarder;
            scope.spawn(move || {
                let mut rng = Rng::new(*seed, "upnp", 0);
                for _ in 0..20 {
                    let port = rng.below(3) as u16;
                    let protocol = protocol(&mut rng);
                    let result = block_on(async {
                        match rng.below(8) {
                            0..=3 => forwarder.open(port, protocol, Duration::from_secs(60)).await,
                            4..=6 => forwarder.close(port, protocol).await,
                            _ => forwarder.discard().await,
                        }
                    });
                    assert!(!matches!(result, Err(ref err) if format!("{err:?}").is_empty()));
                }
            });
        }
    });
    let open = sim::with(|g| g.mappings.len());
    let result = block_on(forwarder.discard());
    let left = sim::with(|g| g.mappings.clone());
    job.check(matches!(result, Ok(true)) && left.is_empty(), "mappings made concurrently were not all discarded", || json!({
        "open before": open, "left": format!("{left:?}"), "result": format!("{result:?}"),
    }));
    job.ctx.count("concurrent histories", 1);
    job.ctx.count("open after concurrent histories", open as u64);
    job.ctx.nontrivial(&seeds);
}

pub fn c21(ctx: &Ctx) {
    // one simulated gateway: cases run one after another
    ctx.cases_on(1, "failures", 6 * 256, exhaustive);
    ctx.cases_on(1, "history", ctx.scale(20_000, 600_000), history);
    ctx.cases_on(1, "concurrent", ctx.scale(300, 20_000), concurrent);
    ctx.require("failure patterns", 6 * 256);
    ctx.require("gateway failures", 10_000);
    ctx.require("discards", 5_000);
    ctx.require("mappings left for the end", 5_000);
    ctx.require("open after concurrent histories", 100);
}

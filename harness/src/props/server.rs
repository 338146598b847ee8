//! C08, C09, C11, C12: what a server accepts and what it then answers. The
//! real middleware with the real routing table and inbox, driven through its
//! HTTP routes.

use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

use hyperborealib::prelude::*;
use serde_json::{json, Value as Json};

use crate::ctx::{block_on, Ctx, Job};
use crate::gen::{self, Rng};
use crate::net::{tree, Host, Net, Reply};
use crate::refimpl as r;

/// A key pair known in raw form, so that requests can be made without the
/// library.
#[derive(Clone)]
pub struct Party {
    pub raw: [u8; 32],
    pub public: [u8; 33],
    pub key: PublicKey,
    pub secret: SecretKey,
    pub b64: String,
}

impl Party {
    pub fn new(rng: &mut Rng) -> Self {
        Self::of(gen::secret_bytes(rng))
    }

    pub fn of(raw: [u8; 32]) -> Self {
        let public = r::public_of(&raw);
        let secret = SecretKey::from(k256::SecretKey::from_slice(&raw).expect("scalar"));
        Self { raw, public, key: secret.public_key(), secret, b64: r::b64(&public) }
    }

    /// Several parties, some of them with the negated key of another.
    pub fn several(rng: &mut Rng, n: usize) -> Vec<Self> {
        let mut parties: Vec<Self> = Vec::with_capacity(n);
        while parties.len() < n {
            let mut party = Self::new(rng);
            if !parties.is_empty() && rng.chance(30) {
                party = rng.pick(&parties).mirror();
            }
            if parties.iter().all(|other| other.public != party.public) {
                parties.push(party);
            }
        }
        parties
    }

    /// Another party: anyone, or the one with the negated key.
    pub fn other(&self, rng: &mut Rng) -> Self {
        if rng.chance(30) { self.mirror() } else { Self::new(rng) }
    }

    /// The party with the negated key: its public key has the same x
    /// coordinate and the other sign.
    pub fn mirror(&self) -> Self {
        let secret = k256::SecretKey::from_slice(&self.raw).expect("scalar");
        Self::of((-*secret.to_nonzero_scalar()).to_bytes().into())
    }
}

pub fn seed(rng: &mut Rng) -> u64 {
    match rng.below(10) {
        0 => 1 << 63,
        1 => u64::MAX,
        2 => (1 << 63) + rng.below(1000),
        _ => rng.u64() | 1 << 63,
    }
}

pub fn info_of(rng: &mut Rng) -> Json {
    let kind = *rng.pick(&["thin", "thick", "server", "file"]);
    let address = if rng.bool() { None } else { Some(gen::string(rng, 20)) };
    r::info_json(kind, address.as_deref())
}

/// The request in `json` is proven by the key it claims.
pub fn proven(json: &Json) -> bool {
    let key = || -> Option<[u8; 33]> { r::unb64(json["public_key"].as_str()?)?.try_into().ok() };
    let Some(public) = key() else { return false };
    let Some(seed) = json["proof"]["seed"].as_u64() else { return false };
    let Some(sign) = json["proof"]["sign"].as_str().and_then(r::unb64) else { return false };
    json["standard"] == 1 && seed >= 1 << 63 && r::verify(&public, &seed.to_be_bytes(), &sign)
}

/// `reply` is a success, with the server's own proof for that seed.
pub fn success(reply: &Reply, server: &Party, seed: u64) -> Result<Json, String> {
    let json = match reply {
        Reply::Text(200, text) => serde_json::from_str::<Json>(text).map_err(|e| format!("{e}: {text}"))?,
        other => return Err(format!("{other:?}")),
    };
    if json["status"] != 100 {
        return Err(json.to_string());
    }
    if json["public_key"] != server.b64.as_str() || json["standard"] != 1 {
        return Err(format!("not in the server's name: {json}"));
    }
    let sign = json["proof"]["sign"].as_str().and_then(r::unb64).unwrap_or_default();
    if !r::verify(&server.public, &seed.to_be_bytes(), &sign) {
        return Err(format!("without the server's proof for this seed: {json}"));
    }
    Ok(json["response"].clone())
}

/// `reply` refuses and tells nothing.
pub fn refused(reply: &Reply) -> Result<(), String> {
    match reply {
        Reply::Text(200, text) => {
            let json = serde_json::from_str::<Json>(text).map_err(|e| format!("{e}: {text}"))?;
            let status = json["status"].as_u64();
            if status.is_none_or(|s| s < 200) || json.get("response").is_some() || json.get("proof").is_some() {
                return Err(format!("not an error: {json}"));
            }
            Ok(())
        }
        Reply::Text(status, _) if *status >= 400 => Ok(()),
        other => Err(format!("{other:?}")),
    }
}

// ------------------------------------------------------------------- C08

const FORGERIES: &[&str] = &[
    "sign bit flipped", "seed changed", "signed by another key", "claims another key", "proof of another client's request",
    "sign of another seed of the same client", "low seed, properly signed", "empty sign", "truncated sign", "extended sign",
    "sign over little endian seed", "sign over decimal seed", "sign over the body", "sign over half the seed", "constant sign",
    "wrong standard", "seed of another type", "sign over seed without top bit", "sign halves swapped", "signed by the server",
    "sign over seed and more", "top bit cleared after signing", "missing proof", "sign in hex",
    "accepted proof of another client", "accepted seed, another sign", "accepted sign, another seed",
];

/// A proof that was accepted: the key that proved it, the seed, the sign.
type Accepted = (String, u64, String);

fn accepted(request: &Json) -> Accepted {
    (
        request["public_key"].as_str().unwrap_or("").to_string(),
        request["proof"]["seed"].as_u64().unwrap_or(0),
        request["proof"]["sign"].as_str().unwrap_or("").to_string(),
    )
}

fn forge(rng: &mut Rng, kind: usize, request: &mut Json, actor: &Party, other: &Party, server: &Party, seen: &[Accepted]) {
    let seed = request["proof"]["seed"].as_u64().unwrap_or(0);
    let sign = request["proof"]["sign"].as_str().and_then(r::unb64).unwrap_or_default();
    let set = |request: &mut Json, sign: Vec<u8>| request["proof"]["sign"] = json!(r::b64(&sign));
    match FORGERIES[kind] {
        "sign bit flipped" => {
            let mut sign = sign;
            let i = rng.below(sign.len() as u64 * 8) as usize;
            sign[i / 8] ^= 1 << (i % 8);
            set(request, sign);
        }
        "seed changed" => request["proof"]["seed"] = json!(match rng.below(3) {
            0 => (seed ^ 1) | 1 << 63,
            1 => seed.wrapping_add(1) | 1 << 63,
            _ => rng.u64() | 1 << 63,
        }),
        "signed by another key" => set(request, r::sign(&other.raw, &seed.to_be_bytes())),
        "claims another key" => request["public_key"] = json!(other.b64),
        "proof of another client's request" => {
            let seed = crate::props::server::seed(rng);
            request["proof"] = json!({ "seed": seed, "sign": r::b64(&r::sign(&other.raw, &seed.to_be_bytes())) });
        }
        "sign of another seed of the same client" => set(request, r::sign(&actor.raw, &(seed ^ (1 << rng.below(63))).to_be_bytes())),
        "low seed, properly signed" => {
            let low = match rng.below(5) {
                0 => 0,
                1 => (1 << 63) - 1,
                2 => 1 << 62,
                3 => rng.below(1 << 32),
                _ => rng.u64() >> 1,
            };
            request["proof"] = json!({ "seed": low, "sign": r::b64(&r::sign(&actor.raw, &u64::to_be_bytes(low))) });
        }
        "empty sign" => request["proof"]["sign"] = json!(""),
        "truncated sign" => {
            let n = rng.below(sign.len() as u64) as usize;
            set(request, sign[..n].to_vec());
        }
        "extended sign" => {
            let mut sign = sign;
            let n = rng.range(1, 40) as usize;
            sign.extend(rng.bytes(n));
            set(request, sign);
        }
        "sign over little endian seed" => set(request, r::sign(&actor.raw, &seed.to_le_bytes())),
        "sign over decimal seed" => set(request, r::sign(&actor.raw, seed.to_string().as_bytes())),
        "sign over the body" => set(request, r::sign(&actor.raw, request["request"].to_string().as_bytes())),
        "sign over half the seed" => {
            let bytes = seed.to_be_bytes();
            set(request, r::sign(&actor.raw, if rng.bool() { &bytes[..4] } else { &bytes[4..] }));
        }
        "constant sign" => set(request, vec![*rng.pick(&[0u8, 1, 0xff, 0x30]); 64]),
        "wrong standard" => match rng.below(5) {
            0 => request["standard"] = json!(0),
            1 => request["standard"] = json!(2),
            2 => request["standard"] = json!("1"),
            3 => request["standard"] = json!(u64::MAX),
            _ => { request.as_object_mut().unwrap().remove("standard"); }
        },
        "seed of another type" => request["proof"]["seed"] = match rng.below(5) {
            0 => json!(seed.to_string()),
            1 => json!(seed as f64),
            2 => json!(-1),
            3 => json!([seed]),
            _ => Json::Null,
        },
        "sign over seed without top bit" => set(request, r::sign(&actor.raw, &(seed & !(1 << 63)).to_be_bytes())),
        "sign halves swapped" => {
            let half = sign.len() / 2;
            set(request, [&sign[half..], &sign[..half]].concat());
        }
        "signed by the server" => set(request, r::sign(&server.raw, &seed.to_be_bytes())),
        "sign over seed and more" => set(request, r::sign(&actor.raw, &[&seed.to_be_bytes()[..], &actor.public].concat())),
        "top bit cleared after signing" => request["proof"]["seed"] = json!(seed & !(1 << 63)),
        "missing proof" => { request.as_object_mut().unwrap().remove("proof"); }
        "accepted proof of another client" => if !seen.is_empty() {
            let (_, seed, sign) = rng.pick(seen);
            request["proof"] = json!({ "seed": seed, "sign": sign });
        },
        "accepted seed, another sign" => if !seen.is_empty() {
            let (_, accepted, _) = rng.pick(seen);
            request["proof"]["seed"] = json!(accepted);
        },
        "accepted sign, another seed" => if !seen.is_empty() {
            let (_, _, sign) = rng.pick(seen);
            request["proof"]["sign"] = json!(sign);
        },
        _ => request["proof"]["sign"] = json!(crate::ctx::hex(&sign)),
    }
}

struct World {
    net: Net,
    host: Host,
    server: Party,
    date: u64,
    /// Servers that clients were announced at.
    homes: Vec<Party>,
}

impl World {
    async fn new(ctx: &Ctx, rng: &mut Rng) -> Self {
        let net = Net::new();
        let server = Party::new(rng);
        let dir = ctx.fresh_dir("host");
        let host = Host::start(&net, "h", server.secret.clone(), dir).await;
        Self { net, host, server, date: 1_700_000_000, homes: Vec::new() }
    }

    fn certificate(&mut self, client: &Party, server: &Party) -> Json {
        self.date += 1;
        r::certificate_json(&client.raw, self.date, &server.public)
    }

    /// A body for this endpoint that has an effect if accepted.
    fn body(&mut self, rng: &mut Rng, path: &str, actor: &Party, victim: &Party) -> Json {
        match path {
            "/api/v1/connect" => {
                let server = self.server.clone();
                json!({ "certificate": self.certificate(actor, &server), "client": info_of(rng) })
            }
            "/api/v1/disconnect" => json!({}),
            "/api/v1/announce" => {
                let home = Party::new(rng);
                self.homes.push(home.clone());
                let server = r::server_json(&home.public, &gen::word(rng, 12));
                if rng.bool() {
                    json!({ "announce": "server", "server": server })
                } else {
                    let info = info_of(rng);
                    self.date += 1;
                    let client = r::client_json(&actor.raw, self.date, &home.public, &info);
                    json!({ "announce": "client", "client": client, "server": server })
                }
            }
            "/api/v1/lookup" => json!({ "public_key": victim.b64, "type": null }),
            "/api/v1/send" => self.send_body(rng, actor, victim, "inbox"),
            _ => json!({ "channel": "inbox", "limit": if rng.bool() { json!(1) } else { Json::Null } }),
        }
    }

    fn send_body(&mut self, rng: &mut Rng, from: &Party, to: &Party, channel: &str) -> Json {
        let info = info_of(rng);
        self.date += 1;
        let client = r::client_json(&from.raw, self.date, &self.server.public, &info);
        let enc = r::Enc { cipher: *rng.pick(&[0u8, 1, 2]), compression: *rng.pick(&[0u8, 1, 2]) };
        let data = gen::content(rng, 64);
        json!({
            "sender": { "client": client, "server": r::server_json(&self.server.public, "h") },
            "receiver": { "public_key": to.b64 },
            "channel": channel,
            "message": r::message_json(&from.raw, &to.public, &data, enc, 5),
        })
    }

    async fn request(&self, path: &str, actor: &Party, seed: u64, body: Json) -> Reply {
        self.net.post("h", path, &r::request_json(&actor.raw, seed, body)).await
    }
}

pub const POSTS: &[&str] = crate::props::hostile::POSTS;

fn c08_case(job: &mut Job) {
    let mut rng = job.rng.fork();
    block_on(async {
        let rng = &mut rng;
        let mut world = World::new(job.ctx, rng).await;
        let victim = Party::new(rng);
        let other = victim.other(rng);
        let stranger = Party::new(rng);

        // keys that stand out: the server's own, its mirror, those of the
        // servers it knows, those that never registered
        let mirror = world.server.mirror();
        let own = world.server.clone();
        let home = Party::new(rng);
        let mut seen: Vec<Accepted> = Vec::new();

        // a populated state: local clients, remote ones, servers, messages
        for (path, actor, receiver) in [
            ("/api/v1/connect", &victim, &victim),
            ("/api/v1/connect", &other, &other),
            ("/api/v1/connect", &own, &own),
            ("/api/v1/connect", &mirror, &mirror),
            ("/api/v1/connect", &home, &home),
            ("/api/v1/announce", &victim, &victim),
            ("/api/v1/announce", &other, &other),
            ("/api/v1/send", &other, &victim),
            ("/api/v1/send", &victim, &victim),
            ("/api/v1/send", &victim, &other),
            ("/api/v1/send", &own, &own),
            ("/api/v1/send", &own, &mirror),
            ("/api/v1/send", &mirror, &home),
        ] {
            let body = world.body(rng, path, actor, receiver);
            let seed = seed(rng);
            let request = r::request_json(&actor.raw, seed, body.clone());
            let reply = world.net.post("h", path, &request).await;
            if let Err(what) = success(&reply, &world.server, seed) {
                job.fail("a proven and certified request is not accepted", json!({ "path": path, "seed": seed, "body": body, "reply": what }));
            }
            seen.push(accepted(&request));
            job.ctx.observe(&(path, seed, body.to_string()));
            job.ctx.count("genuine requests accepted", 1);
        }
        let body = json!({ "announce": "server", "server": r::server_json(&home.public, "a-home") });
        let announced = seed(rng);
        let reply = world.request("/api/v1/announce", &home, announced, body).await;
        if let Err(what) = success(&reply, &world.server, announced) {
            job.fail("a proven request is not accepted", json!({ "path": "/api/v1/announce", "reply": what }));
        }
        let pool = {
            let mut pool = vec![victim.clone(), stranger.clone(), other.clone(), own.clone(), mirror, home];
            pool.extend(world.homes.iter().cloned());
            pool
        };

        // every forgery at every endpoint
        for (p, path) in POSTS.iter().enumerate() {
            for kind in 0..FORGERIES.len() {
                // each case does part of the matrix, so that a case stays short
                if (p + kind) as u64 % 4 != job.index % 4 {
                    continue;
                }
                // who the request is in the name of: mostly clients with
                // something to lose, among them the server itself
                let actor = match rng.below(10) {
                    0..5 => &victim,
                    5..7 => &own,
                    _ => rng.pick(&pool),
                };
                let receiver = if rng.chance(70) { &victim } else { rng.pick(&pool) };
                // who forges it
                let forger = if rng.chance(60) { &other } else { rng.pick(&pool) };
                let body = world.body(rng, path, actor, receiver);
                let seed = seed(rng);
                let mut request = r::request_json(&actor.raw, seed, body);
                forge(rng, kind, &mut request, actor, forger, &world.server, &seen);
                // names another key and keeps the body of the first
                if rng.chance(10) {
                    request["public_key"] = json!(rng.pick(&pool).b64);
                }
                if proven(&request) {
                    continue;
                }
                let before = tree(&world.host.dir);
                let reply = world.net.post("h", path, &request).await;
                let after = tree(&world.host.dir);
                job.ctx.observe(&(*path, kind, request["proof"].to_string(), request["public_key"].to_string()));
                job.ctx.count("forged requests judged", 1);
                if request["public_key"] == own.b64.as_str() {
                    job.ctx.count("forged in the server's name", 1);
                }
                if seen.iter().any(|s| request["proof"]["seed"] == s.1 || request["proof"]["sign"] == s.2.as_str()) {
                    job.ctx.count("parts of accepted proofs", 1);
                }
                job.ctx.sample(FORGERIES[kind], || json!({ "path": path, "request": request, "reply": format!("{reply:?}") }));
                if let Err(what) = refused(&reply) {
                    job.fail(format!("{path} does not refuse a request without valid proof: {}", FORGERIES[kind]), json!({ "request": request, "reply": what }));
                }
                job.check(before == after, &format!("{path} changes state for a refused request: {}", FORGERIES[kind]), || json!({ "request": request, "reply": format!("{reply:?}") }));
            }
        }

        // requests made from one another: header of one, body of another
        for _ in 0..4 {
            let path = *rng.pick(POSTS);
            let claimed = if rng.bool() { &victim } else { &own };
            let body = world.body(rng, path, claimed, claimed);
            let seed = seed(rng);
            let forged = r::request_json(&other.raw, seed, body);
            let mut request = forged.clone();
            request["public_key"] = json!(claimed.b64);
            let before = tree(&world.host.dir);
            let reply = world.net.post("h", path, &request).await;
            job.ctx.observe(&(path, "mixed", seed));
            if let Err(what) = refused(&reply) {
                job.fail(format!("{path} does not refuse another client's proof"), json!({ "request": request, "reply": what }));
            }
            job.check(before == tree(&world.host.dir), &format!("{path} changes state for another client's proof"), || json!({ "request": request }));
        }

        // the state is what it was, and genuine requests see it
        for (path, who) in [("/api/v1/lookup", &stranger), ("/api/v1/poll", &victim), ("/api/v1/poll", &other), ("/api/v1/poll", &own), ("/api/v1/disconnect", &victim), ("/api/v1/disconnect", &own)] {
            let body = match path {
                "/api/v1/poll" => json!({ "channel": "inbox", "limit": null }),
                _ => world.body(rng, path, who, &victim),
            };
            let seed = seed(rng);
            let reply = world.request(path, who, seed, body.clone()).await;
            job.ctx.observe(&(path, seed, "genuine"));
            job.ctx.count("genuine requests accepted", 1);
            match success(&reply, &world.server, seed) {
                Err(what) => job.fail("a proven request is not accepted", json!({ "path": path, "seed": seed, "body": body, "reply": what })),
                Ok(response) => {
                    if path == "/api/v1/poll" {
                        let want = if who.b64 == victim.b64 { 2 } else { 1 };
                        let got = response["messages"].as_array().map(Vec::len);
                        job.check(got == Some(want), "messages appeared or disappeared by refused requests", || json!({ "want": want, "response": response }));
                    }
                }
            }
        }
        let _ = std::fs::remove_dir_all(&world.host.dir);
    });
}

fn c08_validate(job: &mut Job) {
    let rng = &mut job.rng;
    let actor = Party::new(rng);
    let other = actor.other(rng);
    let server = Party::new(rng);
    let mut seen: Vec<Accepted> = Vec::new();
    let genuine = r::request_json(&other.raw, seed(rng), json!({ "public_key": actor.b64, "type": null }));
    if let Ok(parsed) = LookupRequest::from_json(&genuine) {
        if !parsed.validate().unwrap_or(false) {
            job.ctx.violation(job.kind, job.index, "validate() refuses a proven request".to_string(), json!({ "request": genuine }));
        }
    }
    seen.push(accepted(&genuine));
    for kind in 0..FORGERIES.len() + 3 {
        let seed = seed(rng);
        let mut request = r::request_json(&actor.raw, seed, json!({ "public_key": other.b64, "type": null }));
        if kind < FORGERIES.len() {
            forge(rng, kind, &mut request, &actor, &other, &server, &seen);
        }
        let want = proven(&request);
        job.ctx.observe(&(request["proof"].to_string(), request["public_key"].to_string()));
        job.ctx.count("headers validated", 1);
        let got = match LookupRequest::from_json(&request) {
            Ok(parsed) => parsed.validate().unwrap_or(false),
            Err(_) => false,
        };
        if got && want {
            seen.push(accepted(&request));
        }
        if got != want {
            let name = FORGERIES.get(kind).copied().unwrap_or("genuine");
            job.ctx.violation(job.kind, job.index, format!("validate() answers {got} for a request that is proven: {want} ({name})"), json!({ "request": request }));
        }
    }
}

pub fn c08(ctx: &Ctx) {
    ctx.cases("validate", ctx.scale(400, 20_000), c08_validate);
    ctx.cases("endpoints", ctx.scale(320, 16_000), c08_case);
    ctx.require("forged requests judged", 5_000);
    ctx.require("forged in the server's name", 1_000);
    ctx.require("parts of accepted proofs", 300);
    ctx.require("genuine requests accepted", 2_000);
    ctx.require("headers validated", 5_000);
}

// ------------------------------------------------------------------- C09

/// Ways to spoil a certificate; 0 leaves it alone.
const SPOIL: &[&str] = &[
    "genuine", "date changed", "server changed", "sign bit flipped", "empty sign", "truncated sign", "sign of another date",
    "sign of another server", "sign over reversed token", "sign over the date only", "sign over the server only", "sign over little endian date",
    "signed by another client", "signed by the server", "for another server", "by another client for another server", "constant sign", "for the client itself",
    "for the mirrored server", "by the mirrored client", "server mirrored",
];

/// A certificate in the name of `client` for `server` as raw parts.
fn spoiled(rng: &mut Rng, kind: usize, client: &Party, other: &Party, server: &Party, away: &Party, date: u64) -> (u64, [u8; 33], Vec<u8>) {
    let token = |date: u64, server: &Party| r::token(date, &server.public);
    let good = r::sign(&client.raw, &token(date, server));
    match SPOIL[kind] {
        "genuine" => (date, server.public, good),
        "date changed" => {
            let changed = match rng.below(4) {
                0 => date + 1,
                1 => date - 1,
                2 => rng.u64(),
                _ => date ^ (1 << rng.below(64)),
            };
            (changed, server.public, good)
        }
        "server changed" => (date, away.public, good),
        "sign bit flipped" => {
            let mut sign = good;
            let i = rng.below(sign.len() as u64 * 8) as usize;
            sign[i / 8] ^= 1 << (i % 8);
            (date, server.public, sign)
        }
        "empty sign" => (date, server.public, vec![]),
        "truncated sign" => {
            let n = rng.below(good.len() as u64) as usize;
            (date, server.public, good[..n].to_vec())
        }
        "sign of another date" => (date, server.public, r::sign(&client.raw, &token(date + 1 + rng.below(1000), server))),
        "sign of another server" => (date, server.public, r::sign(&client.raw, &token(date, away))),
        "sign over reversed token" => (date, server.public, r::sign(&client.raw, &[&server.public[..], &date.to_be_bytes()].concat())),
        "sign over the date only" => (date, server.public, r::sign(&client.raw, &date.to_be_bytes())),
        "sign over the server only" => (date, server.public, r::sign(&client.raw, &server.public)),
        "sign over little endian date" => (date, server.public, r::sign(&client.raw, &[&date.to_le_bytes()[..], &server.public].concat())),
        "signed by another client" => (date, server.public, r::sign(&other.raw, &token(date, server))),
        "signed by the server" => (date, server.public, r::sign(&server.raw, &token(date, server))),
        "for another server" => (date, away.public, r::sign(&client.raw, &token(date, away))),
        "by another client for another server" => (date, away.public, r::sign(&other.raw, &token(date, away))),
        "constant sign" => (date, server.public, vec![0; 64]),
        "for the mirrored server" => (date, server.mirror().public, r::sign(&client.raw, &token(date, &server.mirror()))),
        "by the mirrored client" => (date, server.public, r::sign(&client.mirror().raw, &token(date, server))),
        "server mirrored" => (date, server.mirror().public, good),
        _ => (date, client.public, r::sign(&client.raw, &token(date, client))),
    }
}

fn certificate_holds(parts: &(u64, [u8; 33], Vec<u8>), client: &Party, server: &Party) -> bool {
    parts.1 == server.public && r::verify(&client.public, &r::token(parts.0, &parts.1), &parts.2)
}

fn certificate_json(parts: &(u64, [u8; 33], Vec<u8>)) -> Json {
    json!({ "token": r::b64(&r::token(parts.0, &parts.1)), "sign": r::b64(&parts.2) })
}

fn c09_validate(job: &mut Job) {
    let rng = &mut job.rng;
    let mut parties: Vec<Party> = Party::several(rng, 4);
    for i in 0..2 {
        parties.push(parties[i].mirror());
    }
    for kind in 0..SPOIL.len() {
        let date = gen::int(rng).clamp(1, u64::MAX - 2000);
        let parts = spoiled(rng, kind, &parties[0], &parties[1], &parties[2], &parties[3], date);
        let Ok(certificate) = ConnectionCertificate::from_json(&certificate_json(&parts)) else {
            job.ctx.violation(job.kind, job.index, "a certificate is not parsed", certificate_json(&parts));
            continue;
        };
        // every pair of parties
        for client in &parties {
            for server in &parties {
                let want = certificate_holds(&parts, client, server);
                let got = certificate.validate(&client.key, &server.key).unwrap_or(false);
                job.ctx.observe(&(certificate_json(&parts).to_string(), &client.b64, &server.b64));
                job.ctx.count("certificates validated", 1);
                if want {
                    job.ctx.count("certificates that hold", 1);
                }
                if got != want {
                    job.ctx.violation(job.kind, job.index, format!("a certificate validates as {got} where {want} is right ({})", SPOIL[kind]), json!({
                        "certificate": certificate_json(&parts), "client": client.b64, "server": server.b64,
                    }));
                }
            }
        }
    }
}

fn c09_endpoints(job: &mut Job) {
    let mut rng = job.rng.fork();
    block_on(async {
        let rng = &mut rng;
        let world = World::new(job.ctx, rng).await;
        let away = Party::new(rng);
        let mut clients: BTreeMap<String, String> = BTreeMap::new();
        // connected here, then announced elsewhere: listed or not
        let mut moved = BTreeSet::new();

        for kind in 0..SPOIL.len() {
            for announce in [false, true] {
                let mut client = Party::new(rng);
                let other = Party::new(rng);
                let info = info_of(rng);
                let date = 1_700_000_000 + rng.below(1_000_000);

                // where the client claims to be: this server, or (announced) any
                let fresh = Party::new(rng);
                let mut home = if announce && rng.bool() { &away } else { &world.server };
                // a server that is a client of itself
                if announce && rng.chance(15) {
                    client = fresh.clone();
                    home = &fresh;
                    job.ctx.count("clients of themselves", 1);
                }
                // this server as a client, once
                if kind as u64 == job.index % SPOIL.len() as u64 && announce == (job.index / SPOIL.len() as u64 % 2 == 1) {
                    client = world.server.clone();
                    job.ctx.count("clients of themselves", u64::from(home.b64 == client.b64));
                }
                let elsewhere = if home.b64 == away.b64 { &world.server } else { &away };
                let parts = spoiled(rng, kind, &client, &other, home, elsewhere, date);
                let want = certificate_holds(&parts, &client, home);

                // half of them are known already, by a genuine certificate
                let mut known: Option<Json> = None;
                if rng.bool() {
                    let date = if want { date - rng.range(1, 5) } else { date - 2 + rng.below(5) };
                    let date = if rng.bool() && !want { parts.0.clamp(1, u64::MAX - 1) } else { date };
                    let connect = rng.bool();
                    let at = if connect { &world.server } else { home };
                    let info = info_of(rng);
                    let certificate = r::certificate_json(&client.raw, date, &at.public);
                    let record = json!({ "public_key": client.b64, "certificate": certificate, "client": info });
                    let seed = seed(rng);
                    let reply = if connect {
                        world.request("/api/v1/connect", &client, seed, json!({ "certificate": certificate, "client": info })).await
                    } else {
                        world.request("/api/v1/announce", &client, seed, json!({ "announce": "client", "client": record, "server": r::server_json(&at.public, "x:0") })).await
                    };
                    if let Err(what) = success(&reply, &world.server, seed) {
                        job.fail("a genuine registration is not accepted", json!({ "record": record, "reply": what }));
                    }
                    job.ctx.count("registrations of known clients", 1);
                    if connect {
                        if want && announce {
                            moved.insert(client.b64.clone());
                        }
                        clients.insert(client.b64.clone(), record.to_string());
                    }
                    known = Some(record);
                }

                let (path, actor, body) = if announce {
                    let actor = match rng.below(5) {
                        0 => &client,
                        1 => &other,
                        2 => &away,
                        3 => home,
                        _ => &world.server,
                    };
                    let record = json!({ "public_key": client.b64, "certificate": certificate_json(&parts), "client": info });
                    let body = json!({ "announce": "client", "client": record, "server": r::server_json(&home.public, "x:1") });
                    ("/api/v1/announce", actor, body)
                } else {
                    ("/api/v1/connect", &client, json!({ "certificate": certificate_json(&parts), "client": info }))
                };

                let before = tree(&world.host.dir);
                let seed = seed(rng);
                let reply = world.request(path, actor, seed, body.clone()).await;
                job.ctx.observe(&(path, kind, body.to_string()));
                job.ctx.count("registrations judged", 1);
                job.ctx.sample(SPOIL[kind], || json!({ "path": path, "body": body, "reply": format!("{reply:?}") }));

                if want {
                    job.ctx.count("registrations that hold", 1);
                    if let Err(what) = success(&reply, &world.server, seed) {
                        job.fail(format!("{path} refuses a genuine certificate"), json!({ "body": body, "reply": what }));
                    }
                    if !announce {
                        let record = json!({ "public_key": client.b64, "certificate": certificate_json(&parts), "client": info });
                        clients.insert(client.b64.clone(), record.to_string());
                    }
                } else {
                    if let Err(what) = refused(&reply) {
                        job.fail(format!("{path} accepts a wrong certificate: {}", SPOIL[kind]), json!({ "body": body, "reply": what }));
                    }
                    job.check(before == tree(&world.host.dir), &format!("{path} changes state for a wrong certificate: {}", SPOIL[kind]), || json!({ "body": body }));
                }

                // lookup: registered exactly if the certificate holds
                let seed = crate::props::server::seed(rng);
                let reply = world.request("/api/v1/lookup", &other, seed, json!({ "public_key": client.b64, "type": null })).await;
                match success(&reply, &world.server, seed) {
                    Err(what) => job.fail("a lookup fails", json!({ "reply": what })),
                    Ok(response) => {
                        let found = response["disposition"] != "hint";
                        let expected = want || known.is_some();
                        job.check(found == expected, &format!("lookup after a registration ({}) finds the client: {found}, certificate holds: {want}", SPOIL[kind]), || json!({ "path": path, "body": body, "known": known, "response": response }));
                        if found && expected {
                            let accepted = if want {
                                json!({ "public_key": client.b64, "certificate": certificate_json(&parts), "client": info })
                            } else {
                                known.clone().unwrap_or_default()
                            };
                            job.check(response["client"] == accepted, "the registration is not the accepted one", || json!({ "body": body, "known": known, "response": response }));
                        }
                    }
                }
            }
        }

        let listed: BTreeMap<String, String> = world.net.raw("h", "GET", "/api/v1/clients", None).await.value()
            .and_then(|json| json["clients"].as_array().cloned())
            .unwrap_or_default()
            .into_iter()
            .map(|client| (client["public_key"].as_str().unwrap_or("").to_string(), client.to_string()))
            .filter(|(key, _)| !moved.contains(key))
            .collect();
        clients.retain(|key, _| !moved.contains(key));
        job.check(listed == clients, "the client list is not exactly the certified clients", || json!({ "listed": listed, "accepted": clients }));
        let _ = std::fs::remove_dir_all(&world.host.dir);
    });
}

pub fn c09(ctx: &Ctx) {
    ctx.cases("validate", ctx.scale(150, 8_000), c09_validate);
    ctx.cases("endpoints", ctx.scale(160, 8_000), c09_endpoints);
    ctx.require("certificates that hold", 150);
    ctx.require("registrations that hold", 300);
    ctx.require("registrations of known clients", 2_000);
    ctx.require("clients of themselves", 500);
    ctx.require("registrations judged", 4_000);
}

// ------------------------------------------------------------------- C11

#[derive(Default, Clone)]
struct Model {
    local: BTreeMap<String, (u64, Json)>,
    remote: BTreeMap<String, (u64, Json, Json)>,
    servers: BTreeMap<String, Json>,
}

fn sorted(list: &Json) -> Vec<String> {
    let mut out: Vec<String> = list.as_array().map(|a| a.iter().map(Json::to_string).collect()).unwrap_or_default();
    out.sort();
    out
}

impl Model {
    fn servers(&self) -> Vec<String> {
        let mut out: Vec<String> = self.servers.values().map(Json::to_string).collect();
        out.sort();
        out
    }

    fn clients(&self) -> Vec<String> {
        let mut out: Vec<String> = self.local.values().map(|(_, c)| c.to_string()).collect();
        out.sort();
        out
    }

    /// What a lookup answers: a problem with `response`, if any.
    fn judge(&self, key: &str, kind: Option<&str>, response: &Json) -> Result<&'static str, String> {
        let fits = |client: &Json| kind.is_none_or(|kind| client["client"]["type"] == kind);
        let local = self.local.get(key).filter(|(_, client)| fits(client));
        let remote = self.remote.get(key).filter(|(_, client, _)| fits(client));

        let local_reply = local.map(|(date, client)| (*date, json!({ "disposition": "local", "client": client, "available": true })));
        let remote_reply = remote.map(|(date, client, server)| (*date, json!({ "disposition": "remote", "client": client, "server": server, "available": true })));

        let allowed: Vec<(Json, &'static str)> = match (local_reply, remote_reply) {
            (None, None) => {
                if response["disposition"] == "hint" && sorted(&response["servers"]) == self.servers() {
                    return Ok("hint");
                }
                return Err(format!("expected the hint {:?}", self.servers()));
            }
            (Some((_, local)), None) => vec![(local, "local")],
            (None, Some((_, remote))) => vec![(remote, "remote")],
            (Some((a, local)), Some((b, remote))) => {
                if a > b {
                    vec![(local, "local of two")]
                } else if b > a {
                    vec![(remote, "remote of two")]
                } else {
                    vec![(local, "tie"), (remote, "tie")]
                }
            }
        };
        match allowed.iter().find(|(json, _)| json == response) {
            Some((_, kind)) => Ok(kind),
            None => Err(format!("expected {}", allowed[0].0)),
        }
    }
}

/// A history of changes with everything read after each; `crowd` makes that many
/// changes first, by as many parties.
fn c11_case(job: &mut Job, crowd: u64) {
    let mut rng = job.rng.fork();
    block_on(async {
        let rng = &mut rng;
        let mut world = World::new(job.ctx, rng).await;
        let mut model = Model::default();
        let clients: Vec<Party> = {
            let n = rng.range(1, 5) + crowd / 2;
            Party::several(rng, n as usize)
        };
        let servers: Vec<Party> = {
            let n = rng.range(1, 4) + crowd / 4;
            Party::several(rng, n as usize)
        };
        // keys that are clients and servers at once
        let everyone: Vec<Party> = clients.iter().chain(&servers).chain([&world.server.clone()]).cloned().collect();
        let stranger = Party::new(rng);
        let mut history: Vec<Json> = Vec::new();

        let steps = if crowd > 0 { crowd + 4 } else { rng.range(4, 22) };
        for step in 0..steps {
            let seed = seed(rng);
            let change = rng.below(if step < crowd { 78 } else { 100 });
            if change < 34 {
                let client = rng.pick(&everyone).clone();
                let info = info_of(rng);
                let server = world.server.clone();
                let mut certificate = world.certificate(&client, &server);
                let mut date = world.date;
                // changed data under an unchanged date, or a certificate used again
                if let Some((last, record)) = model.local.get(&client.b64).filter(|_| rng.chance(30)) {
                    date = *last;
                    certificate = if rng.bool() { record["certificate"].clone() } else { r::certificate_json(&client.raw, date, &server.public) };
                    job.ctx.count("registrations of one date", 1);
                }
                let record = json!({ "public_key": client.b64, "certificate": certificate, "client": info });
                let reply = world.request("/api/v1/connect", &client, seed, json!({ "certificate": certificate, "client": info })).await;
                history.push(json!({ "connect": record }));
                if let Err(what) = success(&reply, &world.server, seed) {
                    job.fail("a genuine connection is not accepted", json!({ "history": history, "reply": what }));
                }
                model.local.insert(client.b64.clone(), (date, record));
            } else if change < 60 {
                let client = rng.pick(&everyone).clone();
                let home = rng.pick(&everyone).clone();
                let actor = if rng.bool() { client.clone() } else { stranger.clone() };
                let info = info_of(rng);
                world.date += 1;
                let mut date = world.date;
                if let Some((last, ..)) = model.remote.get(&client.b64).filter(|_| rng.chance(30)) {
                    date = *last;
                    job.ctx.count("registrations of one date", 1);
                }
                let record = r::client_json(&client.raw, date, &home.public, &info);
                let server = r::server_json(&home.public, &gen::string(rng, 16));
                let reply = world.request("/api/v1/announce", &actor, seed, json!({ "announce": "client", "client": record, "server": server })).await;
                history.push(json!({ "announce": record, "at": server }));
                if let Err(what) = success(&reply, &world.server, seed) {
                    job.fail("a genuine announcement is not accepted", json!({ "history": history, "reply": what }));
                }
                model.remote.insert(client.b64.clone(), (date, record, server));
            } else if change < 78 {
                let home = rng.pick(&everyone).clone();
                let server = r::server_json(&home.public, &gen::string(rng, 16));
                let reply = world.request("/api/v1/announce", &home, seed, json!({ "announce": "server", "server": server })).await;
                history.push(json!({ "server": server }));
                if let Err(what) = success(&reply, &world.server, seed) {
                    job.fail("a server announcement is not accepted", json!({ "history": history, "reply": what }));
                }
                model.servers.insert(home.b64.clone(), server);
            } else if change < 92 {
                let actor = if rng.chance(85) { rng.pick(&everyone).clone() } else { stranger.clone() };
                let reply = world.request("/api/v1/disconnect", &actor, seed, json!({})).await;
                history.push(json!({ "disconnect": actor.b64 }));
                if let Err(what) = success(&reply, &world.server, seed) {
                    job.fail("a disconnection is not accepted", json!({ "history": history, "reply": what }));
                }
                model.local.remove(&actor.b64);
                model.remote.remove(&actor.b64);
                model.servers.remove(&actor.b64);
            } else {
                let net = world.net.clone();
                world.host.restart(&net).await;
                history.push(json!("restart"));
                job.ctx.count("restarts", 1);
            }

            if step < crowd {
                history.clear();
                continue;
            }

            // lookups of everyone by anyone
            let share = if crowd > 0 { 10 } else { 100 };
            for target in everyone.iter().chain([&stranger]) {
                if !rng.chance(share) {
                    continue;
                }
                let kind = match rng.below(5) {
                    0 => Some("thin"),
                    1 => Some("thick"),
                    2 => Some("server"),
                    3 => Some("file"),
                    _ => None,
                };
                let asker = match rng.below(3) {
                    0 => target.clone(),
                    1 => stranger.clone(),
                    _ => rng.pick(&everyone).clone(),
                };
                let seed = crate::props::server::seed(rng);
                let before = job.index % 8 == 0 && rng.chance(20);
                let snapshot = if before { Some(tree(&world.host.dir)) } else { None };
                let reply = world.request("/api/v1/lookup", &asker, seed, json!({ "public_key": target.b64, "type": kind })).await;
                match success(&reply, &world.server, seed) {
                    Err(what) => job.fail("a lookup fails", json!({ "history": history, "reply": what })),
                    Ok(response) => match model.judge(&target.b64, kind, &response) {
                        Ok(answer) => {
                            job.ctx.observe(&(history.len(), target.b64.clone(), kind, response.to_string()));
                            job.ctx.count(&format!("lookups answered: {answer}"), 1);
                        }
                        Err(what) => job.fail(
                            if asker.b64 == target.b64 { "a lookup does not answer the current registration" } else { "a lookup by another client does not answer the current registration" },
                            json!({ "target": target.b64, "asker": asker.b64, "type": kind, "history": history, "response": response, "problem": what }),
                        ),
                    },
                }
                if let Some(snapshot) = snapshot {
                    job.check(snapshot == tree(&world.host.dir), "a lookup changes the state", || json!({ "history": history }));
                }
            }

            // lists
            for (path, field, want) in [("/api/v1/clients", "clients", model.clients()), ("/api/v1/servers", "servers", model.servers())] {
                let reply = world.net.raw("h", "GET", path, None).await;
                let got = sorted(&reply.value().unwrap_or_default()[field]);
                job.ctx.observe(&(path, got.join(",")));
                job.ctx.count("lists compared", 1);
                job.check(got == want, &format!("{path} is not exactly what was registered"), || json!({ "history": history, "listed": got, "registered": want, "reply": format!("{reply:?}") }));
            }

            // the table's own interface
            let router = world.host.driver.router();
            let remote = router.remote_clients().await.map(|list| {
                let mut out: Vec<String> = list.iter().map(|(c, s)| json!([c.to_json().unwrap_or_default(), s.to_json().unwrap_or_default()]).to_string()).collect();
                out.sort();
                out
            });
            let mut want: Vec<String> = model.remote.values().map(|(_, c, s)| json!([c, s]).to_string()).collect();
            want.sort();
            job.check(remote.as_ref().ok() == Some(&want), "the list of remote clients is not exactly what was announced", || json!({ "history": history, "listed": format!("{remote:?}") }));
            let key = rng.pick(&everyone);
            let server = router.lookup_server(&key.key).await.ok().flatten().map(|(s, _)| s.to_json().unwrap_or_default());
            job.check(server.as_ref() == model.servers.get(&key.b64), "looking up a server does not answer its current record", || json!({ "history": history, "key": key.b64, "answer": server }));
        }
        if crowd > 0 {
            job.ctx.count("records of crowded tables", (model.local.len() + model.remote.len() + model.servers.len()) as u64);
        }
        job.ctx.sample(if crowd > 0 { "crowd" } else { "history" }, || json!(history));
        let _ = std::fs::remove_dir_all(&world.host.dir);
    });
}

/// Tables far larger than any cap that could go unnoticed.
fn c11_large(job: &mut Job) {
    let mut rng = job.rng.fork();
    block_on(async {
        let rng = &mut rng;
        let world = World::new(job.ctx, rng).await;
        let home = Party::new(rng);
        let n = if job.index == 0 { 1100 } else { rng.range(10, 1500) as usize };
        let (mut locals, mut remotes, mut servers) = (BTreeMap::new(), BTreeMap::new(), BTreeMap::new());
        for i in 0..n {
            let party = Party::new(rng);
            let info = info_of(rng);
            let date = 1_700_000_000 + rng.below(1000);
            let router = world.host.driver.router();
            let address = format!("s{i}.example.org");
            let done = match i % 3 {
                0 => {
                    let record = r::client_json(&party.raw, date, &world.server.public, &info);
                    locals.insert(party.b64.clone(), record.to_string());
                    router.index_local_client(hyperborealib::rest_api::types::Client::from_json(&record).expect("record")).await.map(|_| ())
                }
                1 => {
                    let record = r::client_json(&party.raw, date, &home.public, &info);
                    let server = r::server_json(&home.public, &address);
                    remotes.insert(party.b64.clone(), (record.to_string(), server.to_string()));
                    let server = hyperborealib::rest_api::types::Server::from_json(&server).expect("record");
                    router.index_remote_client(hyperborealib::rest_api::types::Client::from_json(&record).expect("record"), server).await.map(|_| ())
                }
                _ => Ok(()),
            };
            let server = r::server_json(&party.public, &address);
            servers.insert(party.b64.clone(), server.to_string());
            let told = router.index_server(hyperborealib::rest_api::types::Server::from_json(&server).expect("record")).await.map(|_| ());
            if done.is_err() || told.is_err() {
                return job.fail("a record could not be registered", json!({ "record": i }));
            }
        }
        job.ctx.observe(&("large", n, locals.keys().next().cloned()));
        job.ctx.count("records of large tables", (locals.len() + remotes.len() + servers.len()) as u64);
        // the server that remote clients are at is told with them
        let of = |list: &Json| -> BTreeMap<String, String> {
            list.as_array().map(|list| list.iter().map(|x| (x["public_key"].as_str().unwrap_or("").to_string(), x.to_string())).collect()).unwrap_or_default()
        };
        let compare = |what: &str, mut got: BTreeMap<String, String>, want: &BTreeMap<String, String>| {
            if !want.contains_key(&home.b64) {
                got.remove(&home.b64);
            }
            if got != *want {
                let missing = want.keys().filter(|key| !got.contains_key(*key)).count();
                Err(json!({ "list": what, "listed": got.len(), "registered": want.len(), "missing": missing }))
            } else {
                Ok(())
            }
        };
        let listed = world.net.raw("h", "GET", "/api/v1/clients", None).await.value().map(|json| of(&json["clients"])).unwrap_or_default();
        let known = world.net.raw("h", "GET", "/api/v1/servers", None).await.value().map(|json| of(&json["servers"])).unwrap_or_default();
        let stranger = Party::new(rng);
        let seed = seed(rng);
        let reply = world.request("/api/v1/lookup", &stranger, seed, json!({ "public_key": stranger.b64, "type": null })).await;
        let hint = success(&reply, &world.server, seed).map(|response| of(&response["servers"])).unwrap_or_default();
        for result in [compare("clients", listed, &locals), compare("servers", known, &servers), compare("hint", hint, &servers)] {
            if let Err(detail) = result {
                job.fail("a list of a large table is not what was registered", detail);
            }
        }
        for (key, want) in locals.iter().map(|(key, record)| (key, (record.clone(), None))).chain(remotes.iter().map(|(key, (record, server))| (key, (record.clone(), Some(server.clone()))))) {
            if !rng.chance(15) {
                continue;
            }
            let seed = crate::props::server::seed(rng);
            let reply = world.request("/api/v1/lookup", &stranger, seed, json!({ "public_key": key, "type": null })).await;
            job.ctx.count("lookups in large tables", 1);
            let got = success(&reply, &world.server, seed).map(|response| (response["client"].to_string(), response.get("server").map(Json::to_string)));
            if got != Ok(want.clone()) {
                return job.fail("a lookup in a large table does not find the registration", json!({ "want": want, "got": format!("{got:?}"), "records": n }));
            }
        }
        let _ = std::fs::remove_dir_all(&world.host.dir);
    });
}

pub fn c11(ctx: &Ctx) {
    ctx.cases("large", ctx.scale(2, 20), c11_large);
    ctx.cases("history", ctx.scale(400, 20_000), |job| c11_case(job, 0));
    ctx.cases("crowd", ctx.scale(8, 80), |job| {
        let crowd = job.rng.range(100, 500);
        c11_case(job, crowd)
    });
    ctx.require("records of crowded tables", 1_000);
    ctx.require("records of large tables", 1_000);
    ctx.require("lookups in large tables", 50);
    for answer in ["local", "remote", "hint", "local of two", "remote of two"] {
        ctx.require(&format!("lookups answered: {answer}"), 200);
    }
    ctx.require("lists compared", 2_000);
    ctx.require("restarts", 50);
    ctx.require("registrations of one date", 200);
}

// ------------------------------------------------------------------- C12

/// One registration of the client under test.
struct Registration {
    date: u64,
    home: Option<usize>,
    path: &'static str,
    request: Json,
    seed: u64,
}

fn registration(rng: &mut Rng, client: &Party, server: &Party, homes: &[Party], date: u64) -> Registration {
    let home = if rng.chance(45) { None } else { Some(rng.below(homes.len() as u64) as usize) };
    let info = r::info_json(*rng.pick(&["thin", "file"]), Some(&date.to_string()));
    let seed = seed(rng);
    match home {
        None => {
            let body = json!({ "certificate": r::certificate_json(&client.raw, date, &server.public), "client": info });
            Registration { date, home, path: "/api/v1/connect", request: r::request_json(&client.raw, seed, body), seed }
        }
        Some(i) => {
            let record = r::client_json(&client.raw, date, &homes[i].public, &info);
            let body = json!({ "announce": "client", "client": record, "server": r::server_json(&homes[i].public, &format!("s{i}-{date}")) });
            Registration { date, home, path: "/api/v1/announce", request: r::request_json(&client.raw, seed, body), seed }
        }
    }
}

/// The date and place a lookup reply names.
fn answered(response: &Json) -> Option<(u64, Option<String>)> {
    let token = r::unb64(response["client"]["certificate"]["token"].as_str()?)?;
    let date = u64::from_be_bytes(token.get(..8)?.try_into().ok()?);
    // every part of the record belongs to that registration
    if response["client"]["client"]["address"] != date.to_string().as_str() {
        return None;
    }
    match response["disposition"].as_str()? {
        "local" => Some((date, None)),
        "remote" => {
            let address = response["server"]["address"].as_str()?;
            if !address.ends_with(&format!("-{date}")) {
                return None;
            }
            Some((date, Some(response["server"]["public_key"].as_str()?.to_string())))
        }
        _ => None,
    }
}

fn dates(rng: &mut Rng, n: usize) -> Vec<u64> {
    let mut set = BTreeSet::new();
    let base = 1_700_000_000 + rng.below(1000);
    while set.len() < n {
        set.insert(match rng.below(12) {
            0 => u64::MAX - rng.below(3),
            1 => rng.below(3),
            2 => 1 << rng.below(64),
            3 => base + (rng.below(3) << 32),
            _ => base + rng.below(2 * n as u64),
        });
    }
    set.into_iter().collect()
}

fn c12_orders(job: &mut Job) {
    let mut rng = job.rng.fork();
    block_on(async {
        let rng = &mut rng;
        let mut world = World::new(job.ctx, rng).await;
        let homes: Vec<Party> = Party::several(rng, 2);
        let asker = Party::new(rng);

        for _ in 0..6 {
            let client = Party::new(rng);
            let n = rng.range(2, 5) as usize;
            let mut registrations: Vec<Registration> = dates(rng, n).into_iter()
                .map(|date| registration(rng, &client, &world.server, &homes, date))
                .collect();
            rng.shuffle(&mut registrations);
            // replays of what was already delivered
            let mut order: Vec<usize> = (0..n).collect();
            for _ in 0..rng.below(4) {
                let at = rng.range(1, order.len() as u64) as usize;
                let what = order[rng.below(at as u64) as usize];
                order.insert(at, what);
            }

            let mut newest: Option<(u64, Option<String>)> = None;
            let mut local: Option<u64> = None;
            let mut delivered = Vec::new();
            for i in order {
                let reg = &registrations[i];
                let reply = world.net.post("h", reg.path, &reg.request).await;
                delivered.push(json!({ "date": reg.date, "path": reg.path, "home": reg.home }));
                // a fresh registration is accepted; an outdated one may be
                // acknowledged or refused
                let place = reg.home.map(|i| homes[i].b64.clone());
                if newest.as_ref().is_none_or(|(date, _)| reg.date > *date) {
                    if let Err(what) = success(&reply, &world.server, reg.seed) {
                        job.fail("a newer registration is not accepted", json!({ "delivered": delivered, "reply": what }));
                    }
                    newest = Some((reg.date, place));
                } else {
                    job.ctx.count("outdated registrations delivered", 1);
                }
                if reg.home.is_none() && local.is_none_or(|date| reg.date > date) {
                    local = Some(reg.date);
                }
                if rng.chance(15) {
                    let net = world.net.clone();
                    world.host.restart(&net).await;
                }

                let seed = crate::props::server::seed(rng);
                let asker = if rng.bool() { &asker } else { &client };
                let reply = world.request("/api/v1/lookup", asker, seed, json!({ "public_key": client.b64, "type": null })).await;
                let response = success(&reply, &world.server, seed).unwrap_or_default();
                job.ctx.observe(&(&client.b64, delivered.len(), response.to_string()));
                job.ctx.count("lookups compared", 1);
                job.check(answered(&response) == newest, "an older registration replaces or hides a newer one", || json!({
                    "delivered": delivered, "newest": format!("{newest:?}"), "response": response,
                }));

                // the client list holds the newest connection made here, if any
                let listed = world.net.raw("h", "GET", "/api/v1/clients", None).await.value().unwrap_or_default();
                let listed: Vec<u64> = listed["clients"].as_array().into_iter().flatten()
                    .filter(|record| record["public_key"] == client.b64.as_str())
                    .filter_map(|record| record["client"]["address"].as_str()?.parse().ok())
                    .collect();
                let elsewhere = matches!(newest, Some((_, Some(_))));
                job.check(listed == local.into_iter().collect::<Vec<_>>() || (elsewhere && listed.is_empty()), "the client list does not hold the newest local registration", || json!({
                    "delivered": delivered, "newest local": local, "listed": listed,
                }));
            }
            job.ctx.sample("order", || json!(delivered));
        }
        let _ = std::fs::remove_dir_all(&world.host.dir);
    });
}

fn c12_concurrent(job: &mut Job) {
    let mut rng = job.rng.fork();
    let runtime = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().expect("runtime");
    runtime.block_on(async {
        let rng = &mut rng;
        let world = World::new(job.ctx, rng).await;
        let homes: Vec<Party> = Party::several(rng, 2);
        let reader = Party::new(rng);
        let clients: Vec<Party> = Party::several(rng, 2);
        let acked: Arc<Vec<AtomicU64>> = Arc::new((0..clients.len()).map(|_| AtomicU64::new(0)).collect());
        let problems: Arc<Mutex<Vec<Json>>> = Arc::default();

        let mut newest = Vec::new();
        let mut tasks = Vec::new();
        for (c, client) in clients.iter().enumerate() {
            let mut registrations: Vec<Registration> = dates(rng, 12).into_iter()
                .map(|date| registration(rng, client, &world.server, &homes, date.max(1)))
                .collect();
            let top = registrations.iter().max_by_key(|reg| reg.date).unwrap();
            newest.push((top.date, top.home.map(|i| homes[i].b64.clone())));
            rng.shuffle(&mut registrations);
            for reg in registrations {
                let (net, acked, server) = (world.net.clone(), acked.clone(), world.server.clone());
                let delay = rng.below(3);
                tasks.push(tokio::spawn(async move {
                    for _ in 0..delay {
                        tokio::task::yield_now().await;
                    }
                    let reply = net.post("h", reg.path, &reg.request).await;
                    if success(&reply, &server, reg.seed).is_ok() {
                        acked[c].fetch_max(reg.date, Ordering::SeqCst);
                    }
                }));
            }
        }
        for i in 0..4usize {
            let (net, acked, server, reader, problems) = (world.net.clone(), acked.clone(), world.server.clone(), reader.clone(), problems.clone());
            let clients = clients.clone();
            let seeds: Vec<u64> = (0..12).map(|_| seed(rng)).collect();
            tasks.push(tokio::spawn(async move {
                for (j, seed) in seeds.into_iter().enumerate() {
                    let c = (i + j) % clients.len();
                    let floor = acked[c].load(Ordering::SeqCst);
                    let body = json!({ "public_key": clients[c].b64, "type": null });
                    let reply = net.post("h", "/api/v1/lookup", &r::request_json(&reader.raw, seed, body)).await;
                    let response = match success(&reply, &server, seed) {
                        Ok(response) => response,
                        Err(what) => {
                            problems.lock().unwrap().push(json!({ "what": "a lookup fails during registrations", "reply": what }));
                            continue;
                        }
                    };
                    let date = answered(&response).map(|(date, _)| date);
                    let hint = response["disposition"] == "hint";
                    if (floor > 0 && date.is_none_or(|date| date < floor)) || (date.is_none() && !hint) {
                        problems.lock().unwrap().push(json!({ "what": "an older registration hides a newer, acknowledged one", "acknowledged": floor, "response": response }));
                    }
                }
            }));
        }
        for task in tasks {
            if let Err(err) = task.await {
                job.ctx.error(format!("task: {err}"));
            }
        }
        for problem in problems.lock().unwrap().drain(..) {
            job.fail(problem["what"].as_str().unwrap_or("").to_string(), problem);
        }

        for (client, newest) in clients.iter().zip(newest) {
            let seed = seed(rng);
            let reply = world.request("/api/v1/lookup", &reader, seed, json!({ "public_key": client.b64, "type": null })).await;
            let response = success(&reply, &world.server, seed).unwrap_or_default();
            job.ctx.observe(&(&client.b64, "concurrent", response.to_string()));
            job.ctx.count("concurrent histories", 1);
            job.check(answered(&response).as_ref() == Some(&newest), "after concurrent registrations the newest is not the one kept", || json!({ "newest": format!("{newest:?}"), "response": response }));
        }
        let _ = std::fs::remove_dir_all(&world.host.dir);
    });
}

pub fn c12(ctx: &Ctx) {
    ctx.cases("orders", ctx.scale(160, 8_000), c12_orders);
    ctx.cases_on(2, "concurrent", ctx.scale(150, 8_000), c12_concurrent);
    ctx.require("lookups compared", 1_500);
    ctx.require("outdated registrations delivered", 500);
    ctx.require("concurrent histories", 200);
}

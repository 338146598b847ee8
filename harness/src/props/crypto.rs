//! C01-C05: messages, signatures, keys, shared secrets, codecs, wire format.

use std::collections::{HashMap, HashSet};
use std::str::FromStr;

use serde_json::{json, Value as Json};

use hyperborealib::prelude::*;
use hyperborealib::rest_api::types::{Client as ClientRecord, Server as ServerRecord};

use crate::ctx::{hex, Ctx, Job};
use crate::gen::{self, Rng, COMPRESSIONS, ENCRYPTIONS, LEVELS};
use crate::refimpl::{self as r, Enc};


// ---------------------------------------------------------------- C01

fn c01_case(job: &mut Job, data: Vec<u8>, enc: MessageEncoding, level: CompressionLevel) {
    let sender = gen::secret(&mut job.rng);
    let receiver = if job.rng.chance(5) { sender.clone() } else { gen::secret(&mut job.rng) };

    let detail = |what: String| json!({
        "encoding": enc.to_string(), "level": format!("{level:?}"), "len": data.len(), "data": hex(&data),
        "sender": hex(&sender.serialize()), "receiver": hex(&receiver.serialize()), "got": what
    });

    let message = match Message::create(&sender, &receiver.public_key(), &data, enc, level) {
        Ok(message) => message,
        Err(err) => return job.fail("creating the message failed", detail(err.to_string())),
    };

    // through the wire: alone, inside a send request, inside a poll response
    let way = job.rng.below(4);

    let received = match way {
        0 => message.to_json().map_err(|e| e.to_string())
            .and_then(|json| serde_json::from_str::<Json>(&json.to_string()).map_err(|e| e.to_string()))
            .and_then(|json| Message::from_json(&json).map_err(|e| e.to_string())),
        1 => {
            let record = gen::sender_record(&mut job.rng);
            let request = SendRequest::new(&sender, record, receiver.public_key(), "channel", message.clone());
            request.to_json().map_err(|e| e.to_string())
                .and_then(|json| serde_json::from_slice::<Json>(json.to_string().as_bytes()).map_err(|e| e.to_string()))
                .and_then(|json| SendRequest::from_json(&json).map_err(|e| e.to_string()))
                .map(|request| request.0.request.message)
        }
        2 => {
            let info = MessageInfo::new(gen::sender_record(&mut job.rng), "channel", message.clone(), 1);
            let response = PollResponse::success(ResponseStatus::Success, &receiver, 1 << 63, PollResponseBody::new(vec![info], 0));
            response.to_json().map_err(|e| e.to_string())
                .and_then(|json| serde_json::from_slice::<Json>(&serde_json::to_vec(&json).map_err(|e| e.to_string())?).map_err(|e| e.to_string()))
                .and_then(|json| PollResponse::from_json(&json).map_err(|e| e.to_string()))
                .and_then(|response| match response.0 {
                    Response::Success { mut response, .. } if response.messages.len() == 1 => Ok(response.messages.remove(0).message),
                    _ => Err("poll response lost the message".into()),
                })
        }
        _ => serde_json::to_string(&message).map_err(|e| e.to_string())
            .and_then(|text| serde_json::from_str::<Message>(&text).map_err(|e| e.to_string())),
    };

    let received = match received {
        Ok(received) => received,
        Err(err) => return job.fail("the wire form could not be parsed back", detail(err)),
    };

    job.ctx.count("messages carried over the wire", 1);

    match received.read(&receiver, &sender.public_key()) {
        Ok(got) if got == data => {
            job.ctx.count("messages read back", 1);
            job.ctx.count("content bytes compared", data.len() as u64);
        }
        Ok(got) => job.fail("the receiver reads different bytes", detail(hex(&got))),
        Err(err) => job.fail("the receiver cannot read the message", detail(err.to_string())),
    }

    job.ctx.nontrivial(&(enc, level, &data, way));
    job.ctx.sample("message", || detail("ok".into()));
}

pub fn c01(ctx: &Ctx) {
    // every encoding x level, over boundary sizes
    let sizes = [0usize, 1, 2, 3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1023, 4096, 4097, 32768, 32769, 65535, 65536, 65537];
    let combos = ENCRYPTIONS.len() * COMPRESSIONS.len() * LEVELS.len();
    let total = (combos * sizes.len()) as u64;

    let combo = |i: usize| (
        MessageEncoding::new(Encoding::Base64, ENCRYPTIONS[i % 3], COMPRESSIONS[i / 3 % 3]),
        LEVELS[i / 9 % 3],
    );

    ctx.cases("matrix", total, |job| {
        let (enc, level) = combo(job.index as usize % combos);
        let size = sizes[job.index as usize / combos];
        let data = gen::content_of(&mut job.rng, size);
        c01_case(job, data, enc, level);
    });

    ctx.cases("random", ctx.scale(40_000, 1_000_000), |job| {
        let max = if job.rng.chance(4) { 140_000 } else { 5000 };
        let data = gen::content(&mut job.rng, max);
        let (enc, level) = combo(job.rng.below(27) as usize);
        c01_case(job, data, enc, level);
    });

    ctx.cases("large", ctx.scale(54, 108), |job| {
        let (enc, level) = combo(job.index as usize % combos);
        let megabytes = if job.ctx.thorough { 1 << (20 + job.index / 27) } else { 1 << 19 };
        let n = megabytes as usize + job.rng.below(3) as usize;
        let data = match job.rng.below(3) {
            0 => job.rng.bytes(n),
            1 => {
                let unit = job.rng.bytes(1000);
                unit.iter().cycle().take(n).copied().collect()
            }
            _ => gen::content_of(&mut job.rng, n),
        };
        c01_case(job, data, enc, level);
    });

    // beyond 2^24 bytes
    ctx.cases("huge", ctx.scale(9, 27), |job| {
        let (enc, _) = combo(job.index as usize);
        let n = (1 << 24) + job.rng.below(1 << 20) as usize;
        let unit = job.rng.bytes(*job.rng.clone().pick(&[100, 100_000, n]));
        let data = unit.iter().cycle().take(n).copied().collect();
        c01_case(job, data, enc, CompressionLevel::Fast);
    });

    ctx.require("messages read back", if ctx.violated() { 0 } else { 3000 });
}

// ---------------------------------------------------------------- C02

pub fn c02(ctx: &Ctx) {
    let n = ctx.scale(12_000, 200_000);

    ctx.cases("tamper", n, |job| {
        let rng = &mut job.rng;

        // a little world: three keys, messages among them
        let keys: Vec<SecretKey> = (0..3).map(|_| gen::secret(rng)).collect();
        let publics: Vec<PublicKey> = keys.iter().map(SecretKey::public_key).collect();

        let same_enc = gen::encoding(rng);

        let mut signed: HashMap<usize, HashSet<Vec<u8>>> = HashMap::new();
        let mut messages = Vec::new();

        for _ in 0..4 {
            let from = rng.below(2) as usize;
            // now and then to oneself
            let to = if rng.chance(12) { from } else { (from + 1 + rng.below(2) as usize) % 3 };
            let n = rng.range(13, 400) as usize;
            let data = gen::content_of(rng, n);
            let enc = if rng.chance(70) { same_enc } else { gen::encoding(rng) };
            let level = gen::level(rng);
            let Ok(message) = Message::create(&keys[from], &publics[to], &data, enc, level) else {
                job.fail("creating a message failed", json!({ "encoding": enc.to_string() }));
                return;
            };
            signed.entry(from).or_default().insert(data.clone());
            messages.push((from, to, data, message));
        }

        for (from, to, data, message) in &messages {
            // the untouched message reads as itself
            match message.read(&keys[*to], &publics[*from]) {
                Ok(got) if &got == data => job.ctx.count("genuine reads", 1),
                other => job.fail("genuine message is not read back", json!({ "got": format!("{other:?}"), "message": format!("{message:?}") })),
            }
        }

        let known_contents: HashSet<String> = messages.iter().map(|(_, _, _, m)| m.content.clone()).collect();

        for _ in 0..24 {
            let rng = &mut job.rng;
            let i = rng.below(4) as usize;
            let j = rng.below(4) as usize;
            let (from, to, _, original) = &messages[i];
            let other = &messages[j].3;

            let mut forged = original.clone();
            let mut claimed = *from;
            let mut reader = *to;
            let mut stolen = false;

            let kind = rng.below(16);

            match kind {
                0 => forged.content = mutate_text(rng, &forged.content),
                1 => forged.sign = mutate_text(rng, &forged.sign),
                2 => forged.content = mutate_bytes(rng, &forged.content),
                3 => forged.sign = mutate_bytes(rng, &forged.sign),
                4 => forged.content = other.content.clone(),
                5 => forged.sign = other.sign.clone(),
                6 => std::mem::swap(&mut forged.content, &mut forged.sign),
                7 => forged.encoding = gen::encoding(rng),
                8 => {
                    claimed = rng.below(3) as usize;
                    if claimed == *from {
                        claimed = (claimed + 1) % 3;
                    }
                }
                9 => reader = rng.below(3) as usize,
                10 => {
                    // an attacker writes a message of its own in the sender's name
                    let attacker = gen::secret(rng);
                    let n = *rng.pick(&[0usize, 1, 7, 30]);
                    let data = gen::content_of(rng, n);
                    let enc = gen::encoding(rng);
                    // or in the receiver's own
                    if rng.chance(25) {
                        claimed = *to;
                    }
                    if let Ok(message) = Message::create(&attacker, &publics[*to], &data, enc, gen::level(rng)) {
                        forged = message;
                    }
                }
                11 => {
                    // attacker re-encodes a known plaintext without the secret
                    let n = *rng.pick(&[0usize, 0, 1, 7, 40]);
                    let data = gen::content_of(rng, n);
                    let mut enc = MessageEncoding::new(Encoding::Base64, Encryption::None, forged.encoding.compression);
                    let mut key = [0; 32];
                    // or with a stolen one, which must not be enough either
                    if rng.chance(40) {
                        enc = forged.encoding;
                        key = keys[*from].create_shared_secret(&publics[*to], None);
                        stolen = true;
                    }
                    if let Ok(content) = enc.forward(&data, &key, CompressionLevel::Fast) {
                        forged.content = content;
                        forged.encoding = enc;
                    }
                }
                12 => {
                    forged.sign = match rng.below(4) {
                        0 => String::new(),
                        1 => r::b64(&[0; 64]),
                        2 => r::b64(&rng.bytes(64)),
                        _ => gen::string(rng, 100),
                    }
                }
                13 => {
                    forged.content = match rng.below(3) {
                        0 => String::new(),
                        1 => { let n = rng.below(100) as usize; r::b64(&rng.bytes(n)) }
                        _ => gen::string(rng, 100),
                    }
                }
                14 => {
                    forged.content = other.content.clone();
                    forged.sign = original.sign.clone();
                    forged.encoding = other.encoding;
                }
                _ => {
                    // truncations and extensions of the coded bytes
                    if let Some(mut bytes) = r::unb64(&forged.content) {
                        match rng.below(3) {
                            0 => { bytes.pop(); }
                            1 => bytes.push(rng.u64() as u8),
                            _ => { let cut = rng.below(bytes.len() as u64 + 1) as usize; bytes.truncate(cut); }
                        }
                        forged.content = r::b64(&bytes);
                    }
                }
            }

            job.ctx.eval();
            job.ctx.count("tampered messages read", 1);
            job.ctx.count(&format!("tampering {kind}"), 1);

            let detail = || json!({
                "tampering": kind, "original": format!("{original:?}"), "forged": format!("{forged:?}"),
                "claimed": claimed, "true_sender": from, "reader": reader, "receiver": to,
                "keys": keys.iter().map(|k| hex(&k.serialize())).collect::<Vec<_>>()
            });

            let result = job.ctx.guard(|| forged.read(&keys[reader], &publics[claimed]));

            match result {
                Err(panic) => job.fail(format!("reading panicked at {}:{}", panic.file, panic.line), detail()),
                Ok(Err(_)) => {
                    job.ctx.count("tampered messages refused", 1);
                    job.ctx.nontrivial(&(forged.content, forged.sign, claimed, reader));
                }
                Ok(Ok(got)) => {
                    if !signed.get(&claimed).is_some_and(|set| set.contains(&got)) {
                        job.fail("reading returned bytes the claimed sender never signed", detail());
                    }
                    let encrypted = forged.encoding.encryption != Encryption::None && forged.encoding == original.encoding;
                    if encrypted && !stolen && !known_contents.contains(&forged.content) {
                        job.fail("altered encrypted content was accepted", detail());
                    }
                    // readable only by the pair
                    if forged.encoding.encryption != Encryption::None && reader != *to && reader != *from && kind == 9 {
                        job.fail("a third key reads an encrypted message", detail());
                    }
                }
            }
        }

        // confidentiality of encrypted encodings
        for (from, to, data, message) in &messages {
            if message.encoding.encryption == Encryption::None {
                continue;
            }

            let detail = || json!({ "message": format!("{message:?}"), "data": hex(data) });
            let wire = message.to_json().map(|j| j.to_string()).unwrap_or_default();
            let cipher = r::unb64(&message.content).unwrap_or_default();

            // neither plain nor merely compressed content on the wire; tiny
            // or constant contents would match by accident
            if data.iter().collect::<HashSet<_>>().len() >= 8 {
                for align in 0..3usize.min(data.len()) {
                    let text = r::b64(&data[align..]);
                    let core = &text[..text.len().saturating_sub(4)];
                    if core.len() >= 12 && wire.contains(core) {
                        job.fail("the wire form contains the content", detail());
                    }
                }
                if cipher.windows(12).any(|w| data.windows(12).any(|d| d == w)) {
                    job.fail("the encrypted content contains plain content", detail());
                }
            }

            for plain in [Some(cipher.clone()), r::inflate(&cipher), r::unbrotli(&cipher)].into_iter().flatten() {
                if &plain == data {
                    job.fail("the content is compressed but not encrypted", detail());
                }
            }

            // keys anybody could know, and keys of a stranger
            let stranger = gen::secret(&mut job.rng);
            let s: [u8; 33] = publics[*from].to_bytes();
            let t: [u8; 33] = publics[*to].to_bytes();
            use sha2::Digest;
            let mut guesses: Vec<[u8; 32]> = vec![[0; 32], [0xff; 32]];
            for part in [&s[1..], &t[1..], &r::INFO[..32], &r::INFO[32..]] {
                guesses.push(part.try_into().unwrap_or([0; 32]));
            }
            for parts in [vec![&s[..]], vec![&t[..]], vec![&s[..], &t[..]], vec![&t[..], &s[..]]] {
                let mut hash = sha2::Sha256::new();
                parts.iter().for_each(|p| hash.update(p));
                guesses.push(hash.finalize().into());
            }
            for public in [&s, &t] {
                let bytes: [u8; 32] = stranger.serialize().try_into().unwrap_or([1; 32]);
                guesses.push(r::shared(&bytes, public, None));
            }
            for key in guesses {
                job.ctx.count("key guesses tried", 1);
                if r::aes_open(&key, &cipher).is_some() || r::chacha_open(&key, &cipher).is_some() {
                    job.fail("a key which is not the pair's opens the content", detail());
                }
            }
            if message.read(&stranger, &publics[*from]).is_ok() || message.read(&stranger, &publics[*to]).is_ok() {
                job.fail("a stranger reads an encrypted message", detail());
            }
            job.ctx.count("confidentiality checks", 1);
        }

        job.ctx.sample("world", || json!({ "messages": messages.iter().map(|m| format!("{:?}", m.3)).collect::<Vec<_>>() }));
    });

    // every single-bit alteration of encrypted content
    ctx.cases("bitflip", ctx.scale(400, 6000), |job| {
        let rng = &mut job.rng;
        let (a, b) = (gen::secret(rng), gen::secret(rng));
        let n = rng.below(40) as usize;
        let data = gen::content_of(rng, n);
        let enc = MessageEncoding::new(Encoding::Base64, ENCRYPTIONS[1 + job.index as usize % 2], *rng.pick(COMPRESSIONS));
        let Ok(message) = Message::create(&a, &b.public_key(), &data, enc, gen::level(rng)) else {
            return job.fail("creating failed", json!({}));
        };
        for part in 0..2 {
            let Some(bytes) = r::unb64(if part == 0 { &message.content } else { &message.sign }) else {
                return job.fail("not base64", json!({ "message": format!("{message:?}") }));
            };
            for bit in 0..bytes.len() * 8 {
                let mut altered = bytes.clone();
                altered[bit / 8] ^= 1 << (bit % 8);
                let mut forged = message.clone();
                if part == 0 { forged.content = r::b64(&altered) } else { forged.sign = r::b64(&altered) }
                job.ctx.count("single-bit alterations", 1);
                if forged.read(&b, &a.public_key()).is_ok() {
                    job.fail("a flipped bit in an encrypted message was accepted", json!({ "message": format!("{message:?}"), "part": part, "bit": bit }));
                }
            }
        }
        job.ctx.nontrivial(&message.content);
    });

    // large contents altered at one place only, anywhere: the signature has
    // to cover all of them
    ctx.cases("large", ctx.scale(400, 6000), |job| {
        let rng = &mut job.rng.clone();
        let (a, b) = (gen::secret(rng), gen::secret(rng));
        let n = long_length(rng);
        let data = rng.bytes(n);
        let enc = gen::encoding(rng);
        let Ok(message) = Message::create(&a, &b.public_key(), &data, enc, CompressionLevel::Fast) else {
            return job.fail("creating failed", json!({ "length": n, "encoding": enc.to_string() }));
        };
        match message.read(&b, &a.public_key()) {
            Ok(got) if got == data => job.ctx.count("genuine reads", 1),
            _ => job.fail("genuine message is not read back", json!({ "length": n, "encoding": enc.to_string() })),
        }
        // the receiver knows the shared key: what it gets from a thief of the
        // key, or over a plain encoding, is still not the sender's
        let key = a.create_shared_secret(&b.public_key(), None);
        for _ in 0..6 {
            let (what, altered) = alter_long(rng, &data);
            let Ok(content) = enc.forward(&altered, &key, CompressionLevel::Fast) else { continue };
            let mut forged = message.clone();
            forged.content = content;
            job.ctx.count("large altered contents read", 1);
            if forged.read(&b, &a.public_key()).is_ok() {
                job.fail("reading returned bytes the claimed sender never signed", json!({ "length": n, "alteration": what, "encoding": enc.to_string(), "keys": [hex(&a.serialize()), hex(&b.serialize())] }));
            }
        }
        job.ctx.nontrivial(&(n, message.sign));
    });

    ctx.require("tampered messages refused", 5000);
    ctx.require("large altered contents read", 1000);
    ctx.require("confidentiality checks", 500);
}

/// Lengths about which an implementation could count, buffer or hash in parts.
fn long_length(rng: &mut Rng) -> usize {
    let around = *rng.pick(&[2048usize, 4096, 8192, 16384, 32768, 65535, 65536, 65536, 100_000, 131_072, 262_144, 300_000]);
    around + rng.below(40) as usize - 20
}

/// The same bytes but for one place.
fn alter_long(rng: &mut Rng, data: &[u8]) -> (String, Vec<u8>) {
    let mut m = data.to_vec();
    let n = m.len();
    let powers: Vec<usize> = (8..19).map(|p| 1usize << p).filter(|p| *p < n).collect();
    match rng.below(6) {
        0 => { m[n - 1] ^= 1; ("last byte".into(), m) }
        1 => { m[0] ^= 0x80; ("first byte".into(), m) }
        2 => { let i = rng.below(n as u64) as usize; m[i] ^= 1 << rng.below(8); (format!("byte {i}"), m) }
        3 => { let p = *rng.pick(&powers); let i = p - rng.below(2) as usize; m[i] ^= 1; (format!("byte {i}"), m) }
        4 => { let p = *rng.pick(&powers); m.truncate(p); (format!("cut to {p}"), m) }
        _ => { m.push(0); ("a zero more".into(), m) }
    }
}

fn mutate_text(rng: &mut Rng, text: &str) -> String {
    let mut chars: Vec<char> = text.chars().collect();
    match rng.below(5) {
        0 if !chars.is_empty() => {
            let i = rng.below(chars.len() as u64) as usize;
            chars[i] = *rng.pick(&['A', 'b', '-', '_', '=', '+', '/', ' ', 'é']);
        }
        1 if !chars.is_empty() => {
            let i = rng.below(chars.len() as u64) as usize;
            chars.remove(i);
        }
        2 => {
            let i = rng.below(chars.len() as u64 + 1) as usize;
            chars.insert(i, *rng.pick(&['A', 'z', '=', '\n', '0']));
        }
        3 => {
            let keep = rng.below(chars.len() as u64 + 1) as usize;
            chars.truncate(keep);
        }
        _ => chars.extend(['A', 'A', 'A', 'A']),
    }
    chars.into_iter().collect()
}

fn mutate_bytes(rng: &mut Rng, text: &str) -> String {
    let Some(mut bytes) = r::unb64(text) else {
        return mutate_text(rng, text);
    };
    if bytes.is_empty() {
        bytes.push(rng.u64() as u8);
    } else {
        for _ in 0..rng.range(1, 3) {
            let i = rng.below(bytes.len() as u64) as usize;
            bytes[i] ^= 1 << rng.below(8);
        }
    }
    r::b64(&bytes)
}

// ---------------------------------------------------------------- C03

fn kind_name(kind: ClientType) -> &'static str {
    match kind {
        ClientType::Thin => "thin",
        ClientType::Thick => "thick",
        ClientType::Server => "server",
        ClientType::File => "file",
    }
}

const STATUSES: &[(u64, ResponseStatus)] = &[
    (100, ResponseStatus::Success),
    (200, ResponseStatus::ServerError),
    (300, ResponseStatus::InvalidRequestStructure),
    (301, ResponseStatus::RequestValidationFailed),
    (310, ResponseStatus::ClientLookupTimeout),
    (311, ResponseStatus::ClientNotFound),
    (320, ResponseStatus::ClientNotConnected),
    (321, ResponseStatus::ClientInboxFull),
    (322, ResponseStatus::MessageTooLarge),
];

struct Party {
    raw: [u8; 32],
    public: [u8; 33],
    key: SecretKey,
}

fn party(rng: &mut Rng) -> Party {
    let raw = gen::secret_bytes(rng);
    Party {
        raw,
        public: r::public_of(&raw),
        key: SecretKey::from(k256::SecretKey::from_slice(&raw).expect("scalar")),
    }
}

/// JSON as the library emits it, through its text form.
fn emitted(value: &impl AsJson) -> Result<Json, String> {
    let json = value.to_json().map_err(|e| e.to_string())?;
    serde_json::from_str(&json.to_string()).map_err(|e| e.to_string())
}

fn expect_json(job: &Job, what: &str, got: Result<Json, String>, want: Json) {
    job.ctx.count("emitted values compared", 1);
    match got {
        Ok(got) if got == want => (),
        Ok(got) => job.fail(format!("{what}: layout differs from standard version 1"), json!({ "got": got, "want": want })),
        Err(err) => job.fail(format!("{what}: cannot be emitted"), json!({ "error": err, "want": want })),
    }
}

/// Feed a reference artefact (through text) to the library.
fn accepted<T: AsJson>(job: &Job, what: &str, json: &Json) -> Option<T> {
    job.ctx.count("reference values parsed", 1);
    let json = serde_json::from_str::<Json>(&json.to_string()).ok()?;
    match T::from_json(&json) {
        Ok(value) => Some(value),
        Err(err) => {
            job.fail(format!("{what}: reference artefact refused"), json!({ "artefact": json, "error": err.to_string() }));
            None
        }
    }
}

/// A header of another standard version must be refused.
fn refused_standards<T: AsJson>(job: &Job, what: &str, json: &Json) {
    for standard in [json!(0), json!(2), json!(3), json!(10), json!(11), json!(257), json!(u64::MAX), json!(1u64 << 32 | 1), json!(-1), json!("1"), json!(1.5), json!([1]), json!(true), Json::Null] {
        let mut other = json.clone();
        other["standard"] = standard.clone();
        job.ctx.count("foreign standards tried", 1);
        if T::from_json(&other).is_ok() {
            job.fail(format!("{what}: header of standard {standard} accepted"), json!({ "artefact": other }));
        }
    }
    let mut other = json.clone();
    if let Some(object) = other.as_object_mut() {
        object.remove("standard");
    }
    if T::from_json(&other).is_ok() {
        job.fail(format!("{what}: header without standard accepted"), json!({ "artefact": other }));
    }
}

/// Check the header of an emitted request against the reference and return the seed.
fn check_request(job: &Job, what: &str, got: &Result<Json, String>, author: &Party, body: Json) {
    job.ctx.count("emitted values compared", 1);
    let Ok(got) = got else {
        return job.fail(format!("{what}: cannot be emitted"), json!({ "error": got.as_ref().err() }));
    };
    let seed = got["proof"]["seed"].as_u64();
    let sign = got["proof"]["sign"].as_str().and_then(r::unb64);
    let ok = match (seed, &sign) {
        (Some(seed), Some(sign)) => {
            r::verify(&author.public, &seed.to_be_bytes(), sign)
                && seed >= 1 << 63
                && *got == json!({
                    "standard": 1, "public_key": r::b64(&author.public),
                    "proof": { "seed": seed, "sign": r::b64(sign) }, "request": body
                })
        }
        _ => false,
    };
    if !ok {
        job.fail(format!("{what}: request is not laid out and proven as standard version 1 says"), json!({ "got": got, "body": body, "author": hex(&author.raw) }));
    }
}

fn check_success(job: &Job, what: &str, got: &Result<Json, String>, author: &Party, seed: u64, body: Json) {
    job.ctx.count("emitted values compared", 1);
    let Ok(got) = got else {
        return job.fail(format!("{what}: cannot be emitted"), json!({ "error": got.as_ref().err() }));
    };
    let ok = got["proof"]["sign"].as_str().and_then(r::unb64).is_some_and(|sign| {
        r::verify(&author.public, &seed.to_be_bytes(), &sign)
            && *got == json!({
                "standard": 1, "status": 100, "public_key": r::b64(&author.public),
                "proof": { "sign": r::b64(&sign) }, "response": body
            })
    });
    if !ok {
        job.fail(format!("{what}: response is not laid out and proven as standard version 1 says"), json!({ "got": got, "body": body, "seed": seed, "author": hex(&author.raw) }));
    }
}

fn c03_crypto(job: &mut Job) {
    let rng = &mut job.rng;
    let (a, b) = (party(rng), party(rng));
    let n = if rng.chance(10) { rng.below(9000) as usize } else { rng.below(120) as usize };
    let salt = rng.bytes(n);
    let salt = if rng.chance(40) { None } else { Some(&salt[..]) };

    let want = r::shared(&a.raw, &b.public, salt);
    let got = a.key.create_shared_secret(&b.key.public_key(), salt);
    job.ctx.nontrivial(&want);
    job.check(got == want, "shared secret differs from standard version 1", || json!({ "a": hex(&a.raw), "b": hex(&b.raw), "salt": salt.map(hex), "got": hex(&got), "want": hex(&want) }));
    job.check(a.key.public_key().to_bytes() == a.public, "public key bytes differ", || json!({ "a": hex(&a.raw) }));
    job.check(a.key.public_key().to_base64() == r::b64(&a.public), "public key base64 differs", || json!({ "a": hex(&a.raw), "got": a.key.public_key().to_base64() }));
    job.check(a.key.serialize() == a.raw, "secret key bytes differ", || json!({ "a": hex(&a.raw) }));
    job.check(a.key.to_base64() == r::b64(&a.raw), "secret key base64 differs", || json!({ "a": hex(&a.raw) }));

    let max = if job.rng.chance(2) { 140_000 } else { 3000 };
    let data = gen::content(&mut job.rng, max);

    // signatures
    let sign = a.key.create_signature(&data);
    job.check(sign.len() == 64 && r::verify(&a.public, &data, &sign), "signature is not accepted by the reference", || json!({ "data": hex(&data), "sign": hex(&sign), "a": hex(&a.raw) }));
    let sign = r::sign(&a.raw, &data);
    let got = a.key.public_key().verify_signature(&data, &sign);
    job.check(matches!(got, Ok(true)), "reference signature is refused", || json!({ "data": hex(&data), "sign": hex(&sign), "got": format!("{got:?}") }));

    // capsules
    let capsule = a.key.create_encapsulated_signature(&data);
    let ok = capsule.len() == 72 + data.len() && capsule[..8] == 64u64.to_be_bytes() && capsule[72..] == data[..] && r::verify(&a.public, &data, &capsule[8..72]);
    job.check(ok, "encapsulated signature layout differs", || json!({ "data": hex(&data), "capsule": hex(&capsule) }));
    let capsule = r::capsule(&a.raw, &data);
    let got = a.key.public_key().decode_encapsulated_signature(&capsule);
    job.check(matches!(&got, Ok(Some(m)) if *m == data), "reference capsule is refused", || json!({ "data": hex(&data), "got": format!("{got:?}") }));

    // ciphers
    let key = job.rng.array32();
    let cases: [(Encryption, Vec<u8>); 3] = [
        (Encryption::None, data.clone()),
        (Encryption::Aes256Gcm, r::aes_seal(&key, &data)),
        (Encryption::ChaCha20Poly1305, r::chacha_seal(&key, &data)),
    ];
    for (cipher, want) in &cases {
        let got = cipher.encrypt(&data, &key);
        job.check(matches!(&got, Ok(got) if got == want), "ciphertext differs from the reference", || json!({ "cipher": cipher.to_string(), "key": hex(&key), "data": hex(&data), "want": hex(want) }));
        let got = cipher.decrypt(want, &key);
        job.check(matches!(&got, Ok(got) if *got == data), "reference ciphertext is refused", || json!({ "cipher": cipher.to_string(), "key": hex(&key), "data": hex(&data), "got": format!("{got:?}") }));
    }

    // compressors
    for level in LEVELS {
        let c = Compression::Deflate.compress(&data, *level);
        job.check(matches!(&c, Ok(c) if r::inflate(c).as_deref() == Some(&data[..])), "deflate output is not a raw deflate stream of the input", || json!({ "level": format!("{level:?}"), "data": hex(&data) }));
        let c = Compression::Brotli.compress(&data, *level);
        job.check(matches!(&c, Ok(c) if r::unbrotli(c).as_deref() == Some(&data[..])), "brotli output is not a brotli stream of the input", || json!({ "level": format!("{level:?}"), "data": hex(&data) }));
        let c = Compression::None.compress(&data, *level);
        job.check(matches!(&c, Ok(c) if *c == data), "plain compression alters data", || json!({ "data": hex(&data) }));
    }
    let level = job.rng.below(10) as u32;
    let got = Compression::Deflate.decompress(r::deflate(&data, level));
    job.check(matches!(&got, Ok(got) if *got == data), "reference deflate stream is refused", || json!({ "level": level, "data": hex(&data) }));
    let level = job.rng.below(12) as u32;
    let got = Compression::Brotli.decompress(r::brotlied(&data, level));
    job.check(matches!(&got, Ok(got) if *got == data), "reference brotli stream is refused", || json!({ "level": level, "data": hex(&data) }));

    // text
    let text = r::b64(&data);
    job.check(Encoding::Base64.encode(&data) == text, "base64 text differs", || json!({ "data": hex(&data) }));
    let got = Encoding::Base64.decode(&text);
    job.check(matches!(&got, Ok(got) if *got == data), "reference base64 is refused", || json!({ "data": hex(&data) }));

    // messages, both ways
    let enc = Enc { cipher: job.rng.below(3) as u8, compression: job.rng.below(3) as u8 };
    let lib_enc = MessageEncoding::new(Encoding::Base64, ENCRYPTIONS[enc.cipher as usize], COMPRESSIONS[enc.compression as usize]);
    let level = gen::level(&mut job.rng);

    if let Ok(message) = Message::create(&a.key, &b.key.public_key(), &data, lib_enc, level) {
        let key = r::shared(&b.raw, &a.public, None);
        let json = emitted(&message).unwrap_or_default();
        let content = json["content"].as_str().and_then(|t| enc.backward(t, &key));
        let sign = json["sign"].as_str().and_then(|t| enc.backward(t, &key));
        let ok = json["encoding"] == json!(enc.name())
            && json.as_object().map(|o| o.len()) == Some(3)
            && content.as_deref() == Some(&data[..])
            && sign.is_some_and(|sign| r::verify(&a.public, &data, &sign));
        job.check(ok, "the reference cannot read the library's message", || json!({ "message": json, "data": hex(&data), "a": hex(&a.raw), "b": hex(&b.raw) }));
    } else {
        job.fail("creating a message failed", json!({ "data": hex(&data) }));
    }

    let quality = job.rng.below(10) as u32;
    let json = r::message_json(&a.raw, &b.public, &data, enc, quality);
    if let Some(message) = accepted::<Message>(job, "message", &json) {
        let got = message.read(&b.key, &a.key.public_key());
        job.check(matches!(&got, Ok(got) if *got == data), "the library cannot read the reference's message", || json!({ "message": json, "got": format!("{got:?}"), "a": hex(&a.raw), "b": hex(&b.raw) }));
        job.check(message.encoding == lib_enc, "encoding name is read as another encoding", || json!({ "message": json }));
    }
    job.ctx.count("messages exchanged with the reference", 2);
}

fn c03_wire(job: &mut Job) {
    let rng = &mut job.rng;
    let (client, server, third) = (party(rng), party(rng), party(rng));
    let date = gen::auth_date(rng);
    let kind = gen::client_type(rng);
    let info = gen::client_info(rng);
    let info = ClientInfo { client_type: kind, ..info };
    let info_json = r::info_json(kind_name(kind), info.address.as_deref());
    let address = gen::string(rng, 40);
    let channel = gen::string(rng, 40);
    let limit = if rng.bool() { None } else { Some(gen::int(rng)) };
    let stamp = gen::int(rng);
    let remaining = gen::int(rng);
    let available = rng.bool();
    let seed = gen::int(rng) | 1 << 63;
    let reason = gen::string(rng, 60);

    let public = |p: &Party| p.key.public_key();

    // tokens
    let token = ConnectionToken::new(date, public(&server));
    let want = r::token(date, &server.public);
    job.check(token.to_bytes()[..] == want[..], "connection token layout differs", || json!({ "date": date, "got": hex(&token.to_bytes()), "want": hex(&want) }));
    let got = ConnectionToken::from_bytes(&want);
    job.check(matches!(&got, Ok(t) if *t == token), "reference connection token is refused or misread", || json!({ "token": hex(&want), "got": format!("{got:?}") }));

    // certificates
    let before = hyperborealib::time::timestamp();
    let certificate = ConnectionCertificate::new(&client.key, public(&server));
    let after = hyperborealib::time::timestamp();
    let unix = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_secs()).unwrap_or(0);
    let auth_date = certificate.token.auth_date;
    job.check(before <= auth_date && auth_date <= after && auth_date.abs_diff(unix) <= 5, "a new certificate is not dated with the current UTC time in seconds", || json!({ "auth_date": auth_date, "now": unix }));
    let own = r::token(auth_date, &server.public);
    expect_json(job, "certificate", emitted(&certificate), json!({ "token": r::b64(&own), "sign": r::b64(&certificate.sign) }));
    job.check(r::verify(&client.public, &own, &certificate.sign), "certificate is not signed by the client over the token", || json!({ "sign": hex(&certificate.sign) }));

    let cert_json = r::certificate_json(&client.raw, date, &server.public);
    let Some(cert) = accepted::<ConnectionCertificate>(job, "certificate", &cert_json) else { return };
    let ok = cert.validate(&public(&client), &public(&server));
    job.check(matches!(ok, Ok(true)), "reference certificate is not valid", || json!({ "certificate": cert_json, "got": format!("{ok:?}") }));

    // records
    let client_json = r::client_json(&client.raw, date, &server.public, &info_json);
    let Some(client_rec) = accepted::<ClientRecord>(job, "client", &client_json) else { return };
    job.check(client_rec == ClientRecord::new(public(&client), cert.clone(), info.clone()), "client record is misread", || json!({ "client": client_json, "got": format!("{client_rec:?}") }));
    expect_json(job, "client", emitted(&client_rec), client_json.clone());

    let server_json = r::server_json(&server.public, &address);
    let Some(server_rec) = accepted::<ServerRecord>(job, "server", &server_json) else { return };
    job.check(server_rec == ServerRecord::new(public(&server), &address), "server record is misread", || json!({ "server": server_json }));
    expect_json(job, "server", emitted(&server_rec), server_json.clone());

    let sender_json = json!({ "client": client_json, "server": server_json });
    let Some(sender) = accepted::<Sender>(job, "sender", &sender_json) else { return };
    job.check(sender == Sender::new(client_rec.clone(), server_rec.clone()), "sender is misread", || json!({ "sender": sender_json }));
    expect_json(job, "sender", emitted(&sender), sender_json.clone());

    let enc = Enc { cipher: job.rng.below(3) as u8, compression: job.rng.below(3) as u8 };
    let n = job.rng.below(60) as usize;
    let data = gen::content_of(&mut job.rng, n);
    let message_json = r::message_json(&client.raw, &third.public, &data, enc, 5);
    let Some(message) = accepted::<Message>(job, "message", &message_json) else { return };
    expect_json(job, "message", emitted(&message), message_json.clone());

    // what the constructors make
    let place = gen::string(&mut job.rng, 30);
    for (kind, info) in [
        (ClientType::Thin, ClientInfo::thin()), (ClientType::Thick, ClientInfo::thick(&place)),
        (ClientType::Server, ClientInfo::server(&place)), (ClientType::File, ClientInfo::file(&place)),
    ] {
        let place = (kind != ClientType::Thin).then_some(place.as_str());
        expect_json(job, "client info", emitted(&info), r::info_json(kind_name(kind), place));
    }
    job.check(ConnectRequestBody::from_certificate(info.clone(), cert.clone()) == ConnectRequestBody { client: info.clone(), certificate: cert.clone() }, "a connect request is not made of its parts", || json!({}));
    let before = hyperborealib::time::timestamp();
    let fresh = MessageInfo::now(sender.clone(), &channel, message.clone());
    let after = hyperborealib::time::timestamp();
    job.check(before <= fresh.received_at && fresh.received_at <= after && fresh == MessageInfo::new(sender.clone(), &channel, message.clone(), fresh.received_at), "a message info is not made of its parts", || json!({ "received_at": fresh.received_at }));

    let minfo_json = json!({ "sender": sender_json, "channel": channel, "message": message_json, "received_at": stamp });
    let Some(minfo) = accepted::<MessageInfo>(job, "message info", &minfo_json) else { return };
    job.check(minfo == MessageInfo::new(sender.clone(), &channel, message.clone(), stamp), "message info is misread", || json!({ "info": minfo_json }));
    expect_json(job, "message info", emitted(&minfo), minfo_json.clone());

    job.ctx.nontrivial(&minfo_json.to_string());

    // ---- requests: emitted by the library
    let request = ConnectRequest::new(&client.key, public(&server), info.clone());
    let json = emitted(&request);
    if let Ok(json) = &json {
        let token = json["request"]["certificate"]["token"].as_str().and_then(r::unb64).unwrap_or_default();
        let sign = json["request"]["certificate"]["sign"].as_str().and_then(r::unb64).unwrap_or_default();
        job.check(token.len() == 41 && token[8..] == server.public && r::verify(&client.public, &token, &sign), "connect request carries no certificate of the client for the server", || json!({ "request": json }));
        check_request(job, "connect", &Ok(json.clone()), &client, json!({ "certificate": { "token": r::b64(&token), "sign": r::b64(&sign) }, "client": info_json }));
    } else {
        job.fail("connect request cannot be emitted", json!({ "error": json.err() }));
    }
    check_request(job, "disconnect", &emitted(&DisconnectRequest::new(&client.key)), &client, json!({}));
    check_request(job, "announce client", &emitted(&AnnounceRequest::client(&client.key, client_rec.clone(), server_rec.clone())), &client, json!({ "announce": "client", "client": client_json, "server": server_json }));
    check_request(job, "announce server", &emitted(&AnnounceRequest::server(&client.key, server_rec.clone())), &client, json!({ "announce": "server", "server": server_json }));
    let filter = if job.rng.bool() { None } else { Some(kind) };
    check_request(job, "lookup", &emitted(&LookupRequest::new(&client.key, public(&third), filter)), &client, json!({ "public_key": r::b64(&third.public), "type": filter.map(kind_name) }));
    check_request(job, "send", &emitted(&SendRequest::new(&client.key, sender.clone(), public(&third), &channel, message.clone())), &client, json!({ "sender": sender_json, "receiver": { "public_key": r::b64(&third.public) }, "channel": channel, "message": message_json }));
    check_request(job, "poll", &emitted(&PollRequest::new(&client.key, &channel, limit)), &client, json!({ "channel": channel, "limit": limit }));

    // ---- requests: made by the reference
    macro_rules! incoming {
        ($type:ty, $what:expr, $body:expr, $valid:expr, $same:expr) => {{
            let json = r::request_json(&client.raw, seed, $body);
            if let Some(request) = accepted::<$type>(job, $what, &json) {
                let valid: Result<bool, ValidationError> = $valid(&request);
                job.check(matches!(valid, Ok(true)), concat!(stringify!($type), " made by the reference is not valid"), || json!({ "request": json, "got": format!("{valid:?}") }));
                job.check($same(&request.0.request) && request.0.public_key == public(&client) && request.0.proof_seed == seed && request.0.standard == 1, concat!(stringify!($type), " is misread"), || json!({ "request": json }));
                refused_standards::<$type>(job, $what, &json);
                let mut foreign = request.clone();
                foreign.0.standard = 2;
                job.check(foreign.to_json().is_err(), concat!(stringify!($type), " of standard 2 is emitted"), || json!({}));
            }
        }};
    }

    incoming!(ConnectRequest, "connect request", json!({ "certificate": cert_json, "client": info_json }), |q: &ConnectRequest| q.validate(&public(&server)), |b: &ConnectRequestBody| b.certificate == cert && b.client == info);
    incoming!(DisconnectRequest, "disconnect request", json!({}), |q: &DisconnectRequest| q.validate(), |_: &DisconnectRequestBody| true);
    incoming!(AnnounceRequest, "announce client request", json!({ "announce": "client", "client": client_json, "server": server_json }), |q: &AnnounceRequest| q.validate(), |b: &AnnounceRequestBody| *b == AnnounceRequestBody::Client { client: client_rec.clone(), server: server_rec.clone() });
    incoming!(AnnounceRequest, "announce server request", json!({ "announce": "server", "server": server_json }), |q: &AnnounceRequest| q.validate(), |b: &AnnounceRequestBody| *b == AnnounceRequestBody::Server { server: server_rec.clone() });
    incoming!(LookupRequest, "lookup request", json!({ "public_key": r::b64(&third.public), "type": filter.map(kind_name) }), |q: &LookupRequest| q.validate(), |b: &LookupRequestBody| b.public_key == public(&third) && b.client_type == filter);
    incoming!(SendRequest, "send request", json!({ "sender": sender_json, "receiver": { "public_key": r::b64(&third.public) }, "channel": channel, "message": message_json }), |q: &SendRequest| q.validate(), |b: &SendRequestBody| b.sender == sender && b.receiver_public == public(&third) && b.channel == channel && b.message == message);
    incoming!(PollRequest, "poll request", json!({ "channel": channel, "limit": limit }), |q: &PollRequest| q.validate(), |b: &PollRequestBody| b.channel == channel && b.limit == limit);

    // ---- responses
    let local_json = json!({ "disposition": "local", "client": client_json, "available": available });
    let remote_json = json!({ "disposition": "remote", "client": client_json, "server": server_json, "available": available });
    let hint_json = json!({ "disposition": "hint", "servers": [server_json, server_json] });
    let poll_json = json!({ "messages": [minfo_json, minfo_json], "remaining": remaining });

    let local = LookupResponseBody::local(client_rec.clone(), available);
    let remote = LookupResponseBody::remote(client_rec.clone(), server_rec.clone(), available);
    let hint = LookupResponseBody::hint(vec![server_rec.clone(), server_rec.clone()]);
    let poll = PollResponseBody::new(vec![minfo.clone(), minfo.clone()], remaining);

    let ok = ResponseStatus::Success;
    check_success(job, "connect response", &emitted(&ConnectResponse::success(ok, &server.key, seed)), &server, seed, json!({}));
    check_success(job, "disconnect response", &emitted(&DisconnectResponse::success(ok, &server.key, seed)), &server, seed, json!({}));
    check_success(job, "announce response", &emitted(&AnnounceResponse::success(ok, &server.key, seed)), &server, seed, json!({}));
    check_success(job, "send response", &emitted(&SendResponse::success(ok, &server.key, seed)), &server, seed, json!({}));
    check_success(job, "lookup local response", &emitted(&LookupResponse::success(ok, &server.key, seed, local.clone())), &server, seed, local_json.clone());
    check_success(job, "lookup remote response", &emitted(&LookupResponse::success(ok, &server.key, seed, remote.clone())), &server, seed, remote_json.clone());
    check_success(job, "lookup hint response", &emitted(&LookupResponse::success(ok, &server.key, seed, hint.clone())), &server, seed, hint_json.clone());
    check_success(job, "poll response", &emitted(&PollResponse::success(ok, &server.key, seed, poll.clone())), &server, seed, poll_json.clone());

    macro_rules! answer {
        ($type:ty, $what:expr, $body:expr, $same:expr) => {{
            let json = r::success_json(&server.raw, seed, $body);
            if let Some(response) = accepted::<$type>(job, $what, &json) {
                let valid = response.validate(seed);
                job.check(matches!(valid, Ok(true)), concat!(stringify!($type), " made by the reference is not valid"), || json!({ "response": json, "got": format!("{valid:?}") }));
                job.check(response.0.standard() == 1 && response.0.status() == ok, concat!(stringify!($type), " tells another standard or status"), || json!({ "response": json }));
                let low = r::success_json(&server.raw, seed & !(1 << 63), $body);
                if let Some(low) = accepted::<$type>(job, $what, &low) {
                    job.check(!matches!(low.validate(seed & !(1 << 63)), Ok(true)) && !matches!(low.validate(seed), Ok(true)), concat!(stringify!($type), " proven over a short seed is valid"), || json!({ "response": json }));
                }
                let same = match &response.0 {
                    Response::Success { standard, status, public_key, response, .. } => *standard == 1 && *status == ok && *public_key == public(&server) && $same(response),
                    _ => false,
                };
                job.check(same, concat!(stringify!($type), " is misread"), || json!({ "response": json }));
                refused_standards::<$type>(job, $what, &json);
            }
            let (code, status) = *job.rng.pick(&STATUSES[1..]);
            let json = r::error_json(code, &reason);
            if let Some(response) = accepted::<$type>(job, $what, &json) {
                let same = matches!(&response.0, Response::Error { standard: 1, status: s, reason: text } if *s == status && *text == reason)
                    && response.0.standard() == 1 && response.0.status() == status;
                job.check(same, concat!(stringify!($type), " error is misread"), || json!({ "response": json }));
                expect_json(job, $what, emitted(&response), json.clone());
                refused_standards::<$type>(job, $what, &json);
            }
            expect_json(job, $what, emitted(&<$type>::error(status, &reason)), json.clone());
        }};
    }

    answer!(ConnectResponse, "connect response", json!({}), |_: &ConnectResponseBody| true);
    answer!(DisconnectResponse, "disconnect response", json!({}), |_: &DisconnectResponseBody| true);
    answer!(AnnounceResponse, "announce response", json!({}), |_: &AnnounceResponseBody| true);
    answer!(SendResponse, "send response", json!({}), |_: &SendResponseBody| true);
    answer!(LookupResponse, "lookup local response", local_json.clone(), |b: &LookupResponseBody| *b == local);
    answer!(LookupResponse, "lookup remote response", remote_json.clone(), |b: &LookupResponseBody| *b == remote);
    answer!(LookupResponse, "lookup hint response", hint_json.clone(), |b: &LookupResponseBody| *b == hint);
    answer!(PollResponse, "poll response", poll_json.clone(), |b: &PollResponseBody| *b == poll);

    // ---- info and lists
    let info = InfoResponse::new(&server.key);
    let json = emitted(&info).unwrap_or_default();
    let iseed = json["proof"]["seed"].as_u64().unwrap_or(0);
    let isign = json["proof"]["sign"].as_str().and_then(r::unb64).unwrap_or_default();
    job.check(
        iseed >= 1 << 63 && r::verify(&server.public, &iseed.to_be_bytes(), &isign)
            && json == json!({ "standard": 1, "server": { "public_key": r::b64(&server.public) }, "proof": { "seed": iseed, "sign": r::b64(&isign) } }),
        "info response is not laid out and proven as standard version 1 says", || json!({ "info": json }));
    let json = json!({ "standard": 1, "server": { "public_key": r::b64(&server.public) }, "proof": { "seed": seed, "sign": r::b64(&r::sign(&server.raw, &seed.to_be_bytes())) } });
    if let Some(info) = accepted::<InfoResponse>(job, "info", &json) {
        let valid = info.validate();
        job.check(matches!(valid, Ok(true)) && info.public_key == public(&server) && info.proof_seed == seed, "reference info is not valid or misread", || json!({ "info": json }));
        refused_standards::<InfoResponse>(job, "info", &json);
    }

    let json = json!({ "standard": 1, "clients": [client_json, client_json] });
    expect_json(job, "clients", emitted(&ClientsResponse::new(vec![client_rec.clone(), client_rec.clone()])), json.clone());
    if let Some(list) = accepted::<ClientsResponse>(job, "clients", &json) {
        job.check(list.clients == [client_rec.clone(), client_rec.clone()], "clients list is misread", || json!({ "list": json }));
        refused_standards::<ClientsResponse>(job, "clients", &json);
    }
    let json = json!({ "standard": 1, "servers": [server_json, server_json] });
    expect_json(job, "servers", emitted(&ServersResponse::new(vec![server_rec.clone(), server_rec.clone()])), json.clone());
    if let Some(list) = accepted::<ServersResponse>(job, "servers", &json) {
        job.check(list.servers == [server_rec.clone(), server_rec.clone()], "servers list is misread", || json!({ "list": json }));
        refused_standards::<ServersResponse>(job, "servers", &json);
    }

    job.ctx.sample("wire", || json!({ "message_info": minfo_json }));
}

pub fn c03(ctx: &Ctx) {
    ctx.cases("crypto", ctx.scale(10_000, 200_000), c03_crypto);
    ctx.cases("wire", ctx.scale(2500, 50_000), c03_wire);

    // the status code table, over every code in range and far ones
    ctx.cases_on(1, "status", 1, |job| {
        for code in (0..5000u64).chain([u64::MAX, 1 << 32, (1 << 32) + 100, (1 << 16) + 100, (1 << 8) * 100 + 100]) {
            let want = STATUSES.iter().find(|(c, _)| *c == code).map(|(_, s)| *s);
            let got = ResponseStatus::from_code(code);
            if got != want {
                job.fail("status code is read differently", json!({ "code": code, "got": format!("{got:?}"), "want": format!("{want:?}") }));
            }
            job.ctx.count("status codes tried", 1);
        }
        for (code, status) in STATUSES {
            if status.to_code() != *code || status.is_success() != (*code == 100) {
                job.fail("status is emitted differently", json!({ "code": code, "got": status.to_code() }));
            }
        }
        job.check(hyperborealib::STANDARD_VERSION == 1, "the standard version is not 1", || json!(hyperborealib::STANDARD_VERSION));
    });

    ctx.require("messages exchanged with the reference", 1000);
    ctx.require("reference values parsed", 3000);
}

// ---------------------------------------------------------------- C04

pub fn c04(ctx: &Ctx) {
    ctx.cases("signatures", ctx.scale(10_000, 300_000), |job| {
        let rng = &mut job.rng;
        let key = gen::secret(rng);
        let other = gen::secret(rng);
        let public = key.public_key();
        let message = gen::content(rng, 2000);
        let sign = key.create_signature(&message);

        let detail = |what: &str, m: &[u8], s: &[u8]| json!({ "what": what, "key": hex(&key.serialize()), "message": hex(&message), "signature": hex(&sign), "tried_message": hex(m), "tried_signature": hex(s) });

        match public.verify_signature(&message, &sign) {
            Ok(true) => job.ctx.count("genuine signatures verified", 1),
            got => job.fail("a genuine signature does not verify", json!({ "got": format!("{got:?}"), "case": detail("", &message, &sign) })),
        }

        let reject = |what: &str, public: &PublicKey, m: &[u8], s: &[u8]| {
            job.ctx.count("false signatures tried", 1);
            match job.ctx.guard(|| public.verify_signature(m, s)) {
                Ok(Ok(true)) => job.fail(format!("a false signature verifies: {what}"), detail(what, m, s)),
                Ok(_) => (),
                Err(panic) => job.fail(format!("verifying panicked at {}:{}", panic.file, panic.line), detail(what, m, s)),
            }
        };

        reject("other key", &other.public_key(), &message, &sign);

        let mut rng = job.rng.clone();
        for _ in 0..6 {
            let mut m = message.clone();
            match rng.below(4) {
                0 => m.push(rng.u64() as u8),
                1 => { if m.pop().is_none() { m.push(0) } }
                2 => m.insert(0, 0),
                _ => if m.is_empty() { m.push(1) } else {
                    let i = rng.below(m.len() as u64) as usize;
                    m[i] ^= 1 << rng.below(8);
                },
            }
            reject("other message", &public, &m, &sign);
        }
        if message.len() > 40 {
            // same prefix, same suffix
            reject("prefix", &public, &message[..32], &sign);
            reject("prefix", &public, &message[..message.len() / 2], &sign);
            reject("suffix", &public, &message[message.len() - 32..], &sign);
        }

        for _ in 0..8 {
            let mut s = sign.clone();
            match rng.below(5) {
                0 => { let n = rng.below(64) as usize; s.truncate(n) }
                1 => s.push(rng.u64() as u8),
                2 => s = rng.bytes(64),
                3 => s = [&s[32..], &s[..32]].concat(),
                _ => { let i = rng.below(64) as usize; s[i] ^= 1 << rng.below(8) }
            }
            reject("altered signature", &public, &message, &s);
        }
        reject("empty", &public, &message, &[]);
        reject("zeros", &public, &message, &[0; 64]);
        reject("ones", &public, &message, &[0xff; 64]);
        // the mirrored signature (r, n - s)
        if let Ok(parsed) = k256::ecdsa::Signature::from_slice(&sign) {
            let (r, s) = parsed.split_scalars();
            if let Ok(mirror) = k256::ecdsa::Signature::from_scalars(*r, -*s) {
                reject("mirrored", &public, &message, &mirror.to_bytes());
            }
        }
        reject("signature of the other key", &public, &message, &other.create_signature(&message));
        job.ctx.nontrivial(&sign);

        // capsules
        let capsule = key.create_encapsulated_signature(&message);
        let got = public.decode_encapsulated_signature(&capsule);
        match got {
            Ok(Some(got)) if got == message => job.ctx.count("capsules opened", 1),
            got => job.fail("a genuine capsule does not give its message", json!({ "got": format!("{got:?}"), "capsule": hex(&capsule) })),
        }

        let open = |what: &str, public: &PublicKey, c: &[u8], allow: bool| {
            job.ctx.count("altered capsules tried", 1);
            match job.ctx.guard(|| public.decode_encapsulated_signature(c)) {
                Ok(Ok(Some(got))) if !(allow && got == message) => job.fail(format!("an altered capsule is accepted: {what}"), json!({ "capsule": hex(c), "key": hex(&key.serialize()), "got": hex(&got) })),
                Ok(_) => (),
                Err(panic) => job.fail(format!("opening a capsule panicked at {}:{}", panic.file, panic.line), json!({ "capsule": hex(c), "what": what })),
            }
        };

        open("other key", &other.public_key(), &capsule, false);
        for _ in 0..8 {
            let mut c = capsule.clone();
            let what = match rng.below(6) {
                0 => { let n = rng.below(c.len() as u64) as usize; c.truncate(n); "truncated" }
                1 => { c.push(rng.u64() as u8); "extended" }
                2 => { let i = rng.below(8) as usize; c[i] ^= 1 << rng.below(8); "length" }
                3 => { let i = 8 + rng.below(64) as usize; c[i] ^= 1 << rng.below(8); "signature" }
                4 => { c[..8].copy_from_slice(&gen::int(&mut rng).to_be_bytes()); "length" }
                _ => { let i = rng.below(c.len() as u64) as usize; c[i] ^= 1 << rng.below(8); "bit" }
            };
            if c != capsule {
                open(what, &public, &c, false);
            }
        }
    });

    // the same over long messages
    ctx.cases("long", ctx.scale(600, 10_000), |job| {
        let rng = &mut job.rng.clone();
        let key = gen::secret(rng);
        let public = key.public_key();
        let n = long_length(rng);
        let message = rng.bytes(n);
        let sign = key.create_signature(&message);
        if !matches!(public.verify_signature(&message, &sign), Ok(true)) {
            job.fail("a genuine signature does not verify", json!({ "length": n, "key": hex(&key.serialize()) }));
        }
        let capsule = key.create_encapsulated_signature(&message);
        match public.decode_encapsulated_signature(&capsule) {
            Ok(Some(got)) if got == message => job.ctx.count("long capsules opened", 1),
            _ => job.fail("a genuine capsule does not give its message", json!({ "length": n, "key": hex(&key.serialize()) })),
        }
        for _ in 0..8 {
            let (what, other) = alter_long(rng, &message);
            job.ctx.count("long messages tried with another's signature", 1);
            if matches!(public.verify_signature(&other, &sign), Ok(true)) {
                job.fail("a false signature verifies: long message", json!({ "length": n, "alteration": what, "key": hex(&key.serialize()) }));
            }
            let (what, other) = alter_long(rng, &capsule);
            if let Ok(Ok(Some(_))) = job.ctx.guard(|| public.decode_encapsulated_signature(&other)) {
                job.fail("an altered capsule is accepted: long message", json!({ "length": n, "alteration": what, "key": hex(&key.serialize()) }));
            }
        }
        job.ctx.nontrivial(&sign);
    });

    // long salts, each pair alike but for one place
    ctx.cases("long salts", ctx.scale(2000, 30_000), |job| {
        let rng = &mut job.rng.clone();
        let (a, b) = (gen::secret(rng), gen::secret(rng));
        let n = if rng.chance(20) { long_length(rng) } else { rng.range(258, 2000) as usize };
        let mut salt = rng.bytes(n);
        salt[n - 1] |= 1;
        let x = a.create_shared_secret(&b.public_key(), Some(&salt));
        let y = b.create_shared_secret(&a.public_key(), Some(&salt));
        if x != y {
            job.fail("the two parties derive different secrets", json!({ "a": hex(&a.serialize()), "b": hex(&b.serialize()), "salt length": n }));
        }
        for _ in 0..4 {
            let (what, other) = alter_long(rng, &salt);
            job.ctx.count("long salts compared", 1);
            if a.create_shared_secret(&b.public_key(), Some(&other)) == x {
                job.fail("different pairs or salts derive the same secret", json!({ "a": hex(&a.serialize()), "b": hex(&b.serialize()), "salt length": n, "alteration": what }));
            }
        }
        job.ctx.nontrivial(&x);
    });

    ctx.require("long capsules opened", 200);
    ctx.require("long salts compared", 2000);

    ctx.cases("secrets", ctx.scale(10_000, 300_000), |job| {
        let rng = &mut job.rng;
        let mut keys: Vec<SecretKey> = Vec::new();
        while keys.len() < 3 {
            let key = gen::secret(rng);
            if !keys.contains(&key) {
                keys.push(key);
            }
        }
        let mut seen: HashMap<[u8; 32], (usize, usize, Option<Vec<u8>>)> = HashMap::new();

        let mut salts: Vec<Option<Vec<u8>>> = vec![None];
        for _ in 0..4 {
            let n = *rng.pick(&[1usize, 2, 8, 16, 31, 32, 33, 63, 64, 65, 100, 200]);
            let mut salt = rng.bytes(n);
            // HKDF pads salts with zeros, so keep them distinct beyond that
            *salt.last_mut().unwrap_or(&mut 0) |= 1;
            if !salts.contains(&Some(salt.clone())) {
                salts.push(Some(salt));
            }
        }

        for salt in &salts {
            for (a, b) in [(0usize, 1usize), (0, 2), (1, 2), (0, 0)] {
                let x = keys[a].create_shared_secret(&keys[b].public_key(), salt.as_deref());
                let y = keys[b].create_shared_secret(&keys[a].public_key(), salt.as_deref());
                job.ctx.count("shared secrets derived", 2);
                job.ctx.observe(&x);
                if x != y {
                    job.fail("the two parties derive different secrets", json!({ "a": hex(&keys[a].serialize()), "b": hex(&keys[b].serialize()), "salt": salt.as_deref().map(hex) }));
                }
                if let Some(first) = seen.insert(x, (a, b, salt.clone())) {
                    job.fail("different pairs or salts derive the same secret", json!({ "first": format!("{first:?}"), "second": format!("{:?}", (a, b, salt)), "keys": keys.iter().map(|k| hex(&k.serialize())).collect::<Vec<_>>() }));
                }
            }
        }
    });

    ctx.cases("keys", ctx.scale(15_000, 400_000), |job| {
        let rng = &mut job.rng;
        let raw = gen::secret(rng);
        let bytes = raw.serialize();
        let public = raw.public_key();

        job.ctx.nontrivial(&bytes);
        job.ctx.count("keys carried through byte and text forms", 1);

        let ok = SecretKey::deserialize(&bytes).is_ok_and(|k| k == raw)
            && SecretKey::from_base64(raw.to_base64()).is_ok_and(|k| k == raw && k.public_key() == public);
        job.check(ok, "a secret key does not survive its byte or base64 form", || json!({ "key": hex(&bytes) }));

        let ok = PublicKey::from_bytes(public.to_bytes()).is_ok_and(|k| k == public)
            && PublicKey::from_base64(public.to_base64()).is_ok_and(|k| k == public);
        job.check(ok, "a public key does not survive its byte or base64 form", || json!({ "key": hex(&public.to_bytes()) }));

        // not keys at all
        let mut bad: Vec<Vec<u8>> = vec![vec![], vec![0; 32], vec![0xff; 32], bytes[..31].to_vec()];
        let order = [0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41];
        bad.push(order.to_vec());
        bad.push([&bytes[..], &[0]].concat());
        for bytes in bad {
            // shorter byte strings may be read as scalars with leading zeros; they must not be read as another key's form
            match job.ctx.guard(|| SecretKey::deserialize(&bytes)) {
                Ok(Ok(key)) if bytes.len() == 32 || key == raw => job.fail("an invalid secret key is accepted", json!({ "bytes": hex(&bytes) })),
                Ok(_) => (),
                Err(panic) => job.fail(format!("panic at {}:{}", panic.file, panic.line), json!({ "bytes": hex(&bytes) })),
            }
        }

        let mut point = public.to_bytes();
        let rng = &mut job.rng;
        match rng.below(3) {
            0 => point[0] = rng.u64() as u8,
            1 => point[1..].copy_from_slice(&rng.array32()),
            _ => point[0] ^= 1,
        }
        match job.ctx.guard(|| PublicKey::from_bytes(point)) {
            Ok(Ok(key)) => { 
                // tag 5 is SEC1's compact form, which names the point by its x coordinate alone
                let ok = key.to_bytes()[1..] == point[1..] && (point[0] == 5 || (key.to_bytes() == point && (key == public) == (point == public.to_bytes())));
                job.check(ok, "a public key is read as another", || json!({ "bytes": hex(&point) })); }
            Ok(Err(_)) => job.ctx.count("invalid points refused", 1),
            Err(panic) => job.fail(format!("panic at {}:{}", panic.file, panic.line), json!({ "bytes": hex(&point) })),
        }
        job.ctx.sample("key", || json!({ "secret": hex(&bytes), "public": hex(&public.to_bytes()) }));
    });

    ctx.require("genuine signatures verified", if ctx.violated() { 0 } else { 1000 });
    ctx.require("false signatures tried", 10_000);
    ctx.require("shared secrets derived", 10_000);
}

// ---------------------------------------------------------------- C05

/// The names standard version 1 knows, as an independent parser.
fn parse_encoding(text: &str) -> Option<(u8, u8)> {
    let cipher = |s: &str| match s { "none" | "plain" => Some(0), "aes256-gcm" => Some(1), "chacha20-poly1305" => Some(2), _ => None };
    let compression = |s: &str| match s { "none" | "plain" => Some(0), "deflate" => Some(1), "brotli" => Some(2), _ => None };
    let parts: Vec<&str> = text.split('/').collect();
    if parts[0] != "base64" {
        return None;
    }
    match parts[1..] {
        [] => Some((0, 0)),
        [one] => cipher(one).map(|c| (c, 0)).or_else(|| compression(one).map(|c| (0, c))),
        [a, b] => Some((cipher(a)?, compression(b)?)),
        _ => None,
    }
}

fn enum_index(encoding: &MessageEncoding) -> (u8, u8) {
    let cipher = match encoding.encryption { Encryption::None => 0, Encryption::Aes256Gcm => 1, Encryption::ChaCha20Poly1305 => 2 };
    let compression = match encoding.compression { Compression::None => 0, Compression::Deflate => 1, Compression::Brotli => 2 };
    (cipher, compression)
}

pub fn c05(ctx: &Ctx) {
    let codec = |job: &mut Job, data: Vec<u8>| {
        let level = gen::level(&mut job.rng);
        let detail = |what: &str| json!({ "what": what, "level": format!("{level:?}"), "len": data.len(), "data": hex(&data) });

        job.ctx.nontrivial(&(&data, level));
        job.ctx.count("bytes round-tripped", data.len() as u64);

        for compression in COMPRESSIONS {
            match compression.compress(&data, level).and_then(|c| compression.decompress(c)) {
                Ok(got) if got == data => job.ctx.count("compression round trips", 1),
                Ok(_) => job.fail("decompression gives different data", detail(&compression.to_string())),
                Err(err) => job.fail("compression round trip failed", detail(&format!("{compression}: {err}"))),
            }
        }
        let ok = deflate_compress(&data, level).and_then(deflate_decompress).is_ok_and(|d| d == data)
            && brotli_compress(&data, level).and_then(brotli_decompress).is_ok_and(|d| d == data);
        job.check(ok, "free compression functions do not round-trip", || detail("free functions"));

        let key = job.rng.array32();
        for cipher in ENCRYPTIONS {
            match cipher.encrypt(&data, &key) {
                Ok(sealed) => {
                    match cipher.decrypt(&sealed, &key) {
                        Ok(got) if got == data => job.ctx.count("encryption round trips", 1),
                        _ => job.fail("decryption does not give the input back", detail(&cipher.to_string())),
                    }
                    if *cipher == Encryption::None {
                        continue;
                    }
                    // wrong keys and altered ciphertexts
                    let mut wrong = Vec::new();
                    for _ in 0..4 {
                        let mut k = key;
                        k[job.rng.below(32) as usize] ^= 1 << job.rng.below(8);
                        wrong.push((k, sealed.clone(), "other key"));
                    }
                    wrong.push((job.rng.array32(), sealed.clone(), "other key"));
                    for _ in 0..6 {
                        let mut s = sealed.clone();
                        let i = job.rng.below(s.len() as u64) as usize;
                        s[i] ^= 1 << job.rng.below(8);
                        wrong.push((key, s, "bit flip"));
                    }
                    let n = job.rng.below(sealed.len() as u64) as usize;
                    wrong.push((key, sealed[..n].to_vec(), "truncated"));
                    wrong.push((key, sealed[..sealed.len() - 1].to_vec(), "truncated by one"));
                    wrong.push((key, sealed[sealed.len() - n..].to_vec(), "truncated head"));
                    wrong.push((key, [&sealed[..], &[0]].concat(), "extended"));
                    wrong.push((key, [&[0], &sealed[..]].concat(), "extended head"));
                    for (k, s, what) in wrong {
                        if s == sealed && k == key {
                            continue;
                        }
                        job.ctx.count("false decryptions tried", 1);
                        match job.ctx.guard(|| cipher.decrypt(&s, &k)) {
                            Ok(Err(_)) => (),
                            Ok(Ok(_)) => job.fail(format!("decryption accepted: {what}"), detail(&cipher.to_string())),
                            Err(panic) => job.fail(format!("decryption panicked at {}:{}", panic.file, panic.line), detail(what)),
                        }
                    }
                    let other = if *cipher == Encryption::Aes256Gcm { Encryption::ChaCha20Poly1305 } else { Encryption::Aes256Gcm };
                    if other.decrypt(&sealed, &key).is_ok() {
                        job.fail("another algorithm decrypts the ciphertext", detail(&cipher.to_string()));
                    }
                }
                Err(err) => job.fail("encryption failed", detail(&format!("{cipher}: {err}"))),
            }
        }
        let ok = aes256_gcm_encrypt(&data, &key).and_then(|s| aes256_gcm_decrypt(s, &key)).is_ok_and(|d| d == data)
            && chacha20_poly1305_encrypt(&data, &key).and_then(|s| chacha20_poly1305_decrypt(s, &key)).is_ok_and(|d| d == data);
        job.check(ok, "free encryption functions do not round-trip", || detail("free functions"));

        let text = Encoding::Base64.encode(&data);
        job.check(text.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_' || c == '='), "encoded text leaves the URL-safe alphabet", || json!({ "text": text }));
        let ok = Encoding::Base64.decode(&text).is_ok_and(|d| d == data) && base64_encode(&data) == text && base64_decode(&text).is_ok_and(|d| d == data);
        job.check(ok, "decoding does not give the input back", || detail("base64"));

        let encoding = gen::encoding(&mut job.rng);
        let ok = encoding.forward(&data, &key, level).and_then(|t| encoding.backward(t, &key)).is_ok_and(|d| d == data);
        job.check(ok, "message encoding does not round-trip", || detail(&encoding.to_string()));
    };

    ctx.cases("sizes", 400, |job| {
        let n = job.index as usize;
        let data = gen::content_of(&mut job.rng, n);
        codec(job, data);
    });

    ctx.cases("codec", ctx.scale(10_000, 300_000), |job| {
        let max = if job.rng.chance(5) { 140_000 } else { 4000 };
        let data = gen::content(&mut job.rng, max);
        codec(job, data);
    });

    ctx.cases("large", ctx.scale(12, 60), |job| {
        let n = (job.ctx.scale(1 << 20, 1 << 23) >> job.rng.below(3)) as usize + job.rng.below(2) as usize;
        let data = gen::content_of(&mut job.rng, n);
        codec(job, data);
    });

    // beyond 2^24 bytes
    ctx.cases("huge", ctx.scale(3, 12), |job| {
        let n = (1 << 24) + job.rng.below(1 << 20) as usize;
        let unit = job.rng.bytes([n, 100, 100_000][job.index as usize % 3]);
        let data: Vec<u8> = unit.iter().cycle().take(n).copied().collect();
        codec(job, data);
    });

    ctx.cases("names", ctx.scale(100_000, 2_000_000), |job| {
        let rng = &mut job.rng;
        let words = ["base64", "none", "plain", "aes256-gcm", "chacha20-poly1305", "deflate", "brotli"];

        let mut text = String::new();
        match rng.below(3) {
            0 => {
                for i in 0..rng.range(1, 4) {
                    if i > 0 { text.push('/'); }
                    text.push_str(rng.pick(&words[..]));
                }
            }
            1 => {
                text = format!("base64/{}/{}", rng.pick(&words[1..5]), rng.pick(&["none", "plain", "deflate", "brotli"]));
                if rng.bool() {
                    text = text.split('/').take(rng.range(1, 2) as usize).collect::<Vec<_>>().join("/");
                }
            }
            _ => text = gen::string(rng, 20),
        }
        if rng.chance(40) {
            text = match rng.below(6) {
                0 => text.to_uppercase(),
                1 => format!(" {text}"),
                2 => format!("{text} "),
                3 => format!("{text}/"),
                4 => mutate_text(rng, &text),
                _ => format!("{text}\0"),
            };
        }

        job.ctx.nontrivial(&text);

        let want = parse_encoding(&text);
        let got = MessageEncoding::from_str(&text).ok().map(|e| enum_index(&e));
        job.check(got == want, "an encoding name is parsed wrongly", || json!({ "text": text, "got": format!("{got:?}"), "want": format!("{want:?}") }));
        job.ctx.count(if want.is_some() { "names accepted" } else { "names refused" }, 1);

        let known = |list: &[&str]| list.contains(&text.as_str());
        let ok = Encoding::from_str(&text).is_ok() == known(&["base64"])
            && Encryption::from_str(&text).is_ok() == known(&["none", "plain", "aes256-gcm", "chacha20-poly1305"])
            && Compression::from_str(&text).is_ok() == known(&["none", "plain", "deflate", "brotli"])
            && ClientType::from_str(&text).is_ok() == known(&["thin", "thick", "server", "file"]);
        job.check(ok, "an algorithm name is accepted or refused wrongly", || json!({ "text": text }));
    });

    ctx.cases_on(1, "values", 1, |job| {
        for encryption in ENCRYPTIONS {
            for compression in COMPRESSIONS {
                let value = MessageEncoding::new(Encoding::Base64, *encryption, *compression);
                let ok = MessageEncoding::from_str(&value.to_string()).is_ok_and(|v| v == value)
                    && parse_encoding(&value.to_string()) == Some(enum_index(&value));
                job.check(ok, "an encoding does not parse back from its name", || json!({ "name": value.to_string() }));
            }
            job.check(Encryption::from_str(&encryption.to_string()).is_ok_and(|v| v == *encryption), "encryption name", || json!(encryption.to_string()));
        }
        for compression in COMPRESSIONS {
            job.check(Compression::from_str(&compression.to_string()).is_ok_and(|v| v == *compression), "compression name", || json!(compression.to_string()));
        }
        for kind in [ClientType::Thin, ClientType::Thick, ClientType::Server, ClientType::File] {
            job.check(ClientType::from_str(&kind.to_string()).is_ok_and(|v| v == kind), "client type name", || json!(kind.to_string()));
        }
        job.check(Encoding::from_str(&Encoding::Base64.to_string()).is_ok(), "encoding name", || json!({}));
    });

    ctx.require("compression round trips", if ctx.violated() { 0 } else { 3000 });
    ctx.require("false decryptions tried", 10_000);
}

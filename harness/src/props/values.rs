//! C06: serialisation. Every generated value must come back equal from its
//! JSON text and its serde form, and distinct values must have distinct texts.

use std::collections::HashMap;
use std::fmt::Debug;
use std::sync::Mutex;

use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value as Json};

use hyperborealib::prelude::*;

use crate::ctx::{hash_of, hex, Ctx, Job};
use crate::gen::{self, Rng};
use crate::{wire, wire_types};

/// (type, text) -> hash of the value that produced it
type Texts = Mutex<HashMap<u64, u64>>;

fn distinct(job: &Job, texts: &Texts, name: &str, text: &str, value: u64) {
    let key = hash_of(&(name, text));
    let mut texts = texts.lock().unwrap();
    match texts.get(&key) {
        Some(other) if *other != value => job.fail(format!("{name}: two different values share a serialised form"), json!({ "text": text })),
        Some(_) => (),
        None => { texts.insert(key, value); }
    }
}

fn as_json<T: AsJson + PartialEq + Debug>(job: &Job, texts: &Texts, name: &str, value: &T) {
    let shown = format!("{value:?}");
    let json = match value.to_json() {
        Ok(json) => json,
        Err(err) => return job.fail(format!("{name}: a valid value is refused when serialising"), json!({ "value": shown, "error": err.to_string() })),
    };
    let text = json.to_string();
    job.ctx.observe(&(name, &text));
    job.ctx.count("JSON round trips", 1);
    distinct(job, texts, name, &text, hash_of(&shown));

    let parsed = serde_json::from_str::<Json>(&text).map_err(|e| e.to_string())
        .and_then(|json| T::from_json(&json).map_err(|e| e.to_string()));
    match parsed {
        Ok(back) if back == *value => {
            // and the parsed value prints the same text again
            let again = back.to_json().map(|json| json.to_string()).unwrap_or_default();
            job.check(again == text, &format!("{name}: the text changes when serialised again"), || json!({ "first": text, "second": again }));
        }
        Ok(back) => job.fail(format!("{name}: the value changes through JSON"), json!({ "value": shown, "text": text, "back": format!("{back:?}") })),
        Err(err) => job.fail(format!("{name}: its own JSON is refused"), json!({ "value": shown, "text": text, "error": err })),
    }
    job.ctx.sample(name, || json!({ "type": name, "text": text }));
}

fn as_serde<T: Serialize + DeserializeOwned + PartialEq + Debug>(job: &Job, texts: &Texts, name: &str, value: &T, identity: u64) {
    let shown = format!("{value:?}");
    let text = match serde_json::to_string(value) {
        Ok(text) => text,
        Err(err) => return job.fail(format!("{name}: refused by serde"), json!({ "value": shown, "error": err.to_string() })),
    };
    job.ctx.observe(&("serde", name, &text));
    job.ctx.count("serde round trips", 1);
    distinct(job, texts, &format!("serde {name}"), &text, identity);

    let ways: [(&str, Result<T, String>); 3] = [
        ("text", serde_json::from_str(&text).map_err(|e| e.to_string())),
        ("reader", serde_json::from_reader(text.as_bytes()).map_err(|e| e.to_string())),
        ("value", serde_json::to_value(value).and_then(serde_json::from_value).map_err(|e| e.to_string())),
    ];
    for (way, back) in ways {
        match back {
            Ok(back) if back == *value => (),
            Ok(back) => job.fail(format!("{name}: the value changes through serde ({way})"), json!({ "value": shown, "text": text, "back": format!("{back:?}") })),
            Err(err) => job.fail(format!("{name}: its own serde form is refused ({way})"), json!({ "value": shown, "text": text, "error": err })),
        }
    }
}

/// Values the format cannot carry must be refused, not altered.
fn refused<T: AsJson + Debug>(job: &Job, name: &str, value: &T) {
    job.ctx.eval();
    job.ctx.count("unrepresentable values tried", 1);
    if let Ok(json) = value.to_json() {
        job.fail(format!("{name}: an unrepresentable value is serialised"), json!({ "value": format!("{value:?}"), "json": json }));
    }
}

fn numbers(job: &mut Job, texts: &Texts) {
    let rng = &mut job.rng;
    let a = gen::int(rng);
    let b = gen::int(rng);
    let wide = (b as u128) << 64 | a as u128;
    let text = gen::string(rng, 200);
    let list: Vec<u64> = wire::many(rng, gen::int);
    let strings: Vec<String> = wire::many(rng, |rng| gen::string(rng, 30));
    let nested: Vec<Vec<i64>> = wire::many(rng, |rng| wire::many(rng, |rng| gen::int(rng) as i64));

    let job = &*job;
    as_json(job, texts, "()", &());
    as_json(job, texts, "u8", &(a as u8));
    as_json(job, texts, "u16", &(a as u16));
    as_json(job, texts, "u32", &(a as u32));
    as_json(job, texts, "u64", &a);
    as_json(job, texts, "usize", &(a as usize));
    as_json(job, texts, "i8", &(a as i8));
    as_json(job, texts, "i16", &(a as i16));
    as_json(job, texts, "i32", &(a as i32));
    as_json(job, texts, "i64", &(a as i64));
    as_json(job, texts, "isize", &(a as isize));
    as_json(job, texts, "u128", &(a as u128));
    as_json(job, texts, "i128", &(a as i64 as i128));
    as_json(job, texts, "i128", &(a as i128));
    as_json(job, texts, "String", &text);
    as_json(job, texts, "PathBuf", &std::path::PathBuf::from(&text));
    as_json(job, texts, "Vec<u64>", &list);
    as_json(job, texts, "Vec<String>", &strings);
    as_json(job, texts, "Vec<Vec<i64>>", &nested);
    as_json(job, texts, "Box<u64>", &Box::new(a));
    as_json(job, texts, "Vec<Box<String>>", &strings.iter().cloned().map(Box::new).collect::<Vec<_>>());

    // numbers beyond 64 bits: a text that comes back equal, or a refusal
    for (name, result) in [
        ("u128", wide.to_json().map(|json| u128::from_json(&json).ok() == Some(wide))),
        ("i128", (wide as i128).to_json().map(|json| i128::from_json(&json).ok() == Some(wide as i128))),
    ] {
        job.ctx.observe(&(name, wide));
        job.ctx.count("128 bit numbers tried", 1);
        if let Ok(false) = result {
            job.fail(format!("{name}: a large number is altered"), json!({ "value": wide.to_string() }));
        }
    }

    // numbers of one type read as another: refused unless they fit
    let json = json!(a);
    let ok = u8::from_json(&json).ok() == u8::try_from(a).ok()
        && u16::from_json(&json).ok() == u16::try_from(a).ok()
        && u32::from_json(&json).ok() == u32::try_from(a).ok()
        && i64::from_json(&json).ok() == i64::try_from(a).ok()
        && i8::from_json(&json).ok() == i8::try_from(a).ok();
    job.check(ok, "a number is read as a different one", || json!({ "number": a }));
}

pub fn c06(ctx: &Ctx) {
    let texts: Texts = Mutex::new(HashMap::new());

    ctx.cases("types", ctx.scale(2500, 60_000), |job| {
        macro_rules! one {
            (@noserde $name:expr, $type:ty, $make:expr) => {{
                let make = $make;
                let value: $type = make(&mut job.rng);
                as_json(job, &texts, $name, &value);
            }};
            ($name:expr, $type:ty, $make:expr) => {{
                let make = $make;
                let value: $type = make(&mut job.rng);
                as_json(job, &texts, $name, &value);
                as_serde(job, &texts, $name, &value, hash_of(&format!("{value:?}")));
            }};
        }
        wire_types!(one);

        // serde-only types
        let token = ConnectionToken::new(gen::int(&mut job.rng), gen::secret(&mut job.rng).public_key());
        as_serde(job, &texts, "ConnectionToken", &token, hash_of(&format!("{token:?}")));
        let encoding = gen::encoding(&mut job.rng);
        as_serde(job, &texts, "MessageEncoding", &encoding, hash_of(&encoding));
        as_serde(job, &texts, "Encryption", &encoding.encryption, hash_of(&encoding.encryption));
        as_serde(job, &texts, "Compression", &encoding.compression, hash_of(&encoding.compression));
        let level = gen::level(&mut job.rng);
        as_serde(job, &texts, "CompressionLevel", &level, hash_of(&level));
        let status = wire::status(&mut job.rng);
        as_serde(job, &texts, "ResponseStatus", &status, hash_of(&status));
        let kind = gen::client_type(&mut job.rng);
        as_serde(job, &texts, "ClientType", &kind, hash_of(&kind));

        let secret = gen::secret(&mut job.rng);
        as_serde(job, &texts, "SecretKey", &secret, hash_of(&secret.serialize()));
        let public = secret.public_key();
        as_serde(job, &texts, "PublicKey", &public, hash_of(&public.to_bytes().to_vec()));

        let back = serde_json::to_string(&secret).ok().and_then(|text| serde_json::from_str::<SecretKey>(&text).ok());
        job.check(back.as_ref().is_some_and(|key| key.public_key() == public), "SecretKey: a different key comes back", || json!({ "key": hex(&secret.serialize()) }));

        // any other standard version is refused
        let standard = match gen::int(&mut job.rng) { 1 => 2, n => n };
        let mut request = Request::new(&secret, ());
        request.standard = standard;
        refused(job, "Request", &request);
        refused(job, "Response", &Response::Success { standard, status: ResponseStatus::Success, public_key: public.clone(), proof_sign: vec![], response: () });
        refused(job, "Response", &Response::<()>::Error { standard, status: ResponseStatus::ServerError, reason: String::new() });
        let mut info = InfoResponse::new(&secret);
        info.standard = standard;
        refused(job, "InfoResponse", &info);
        refused(job, "ClientsResponse", &ClientsResponse { standard, clients: vec![] });
        refused(job, "ServersResponse", &ServersResponse { standard, servers: vec![] });

        // generic headers around other bodies
        let body: Vec<String> = wire::many(&mut job.rng, |rng: &mut Rng| gen::string(rng, 20));
        let request = wire::request(&mut job.rng, body.clone());
        as_json(job, &texts, "Request<Vec<String>>", &request);
        as_serde(job, &texts, "Request<Vec<String>>", &request, hash_of(&format!("{request:?}")));
        let response = wire::response(&mut job.rng, body);
        as_json(job, &texts, "Response<Vec<String>>", &response);
        as_serde(job, &texts, "Response<Vec<String>>", &response, hash_of(&format!("{response:?}")));

        // a list of records, and a file name which is no text
        let list = wire::many(&mut job.rng, wire::server);
        as_json(job, &texts, "Vec<Server>", &list);
        let path: std::ffi::OsString = std::os::unix::ffi::OsStringExt::from_vec(vec![b'a', 0xff, b'b']);
        let path = std::path::PathBuf::from(path);
        refused(job, "PathBuf", &path);
    });

    ctx.cases("numbers", ctx.scale(8000, 200_000), |job| numbers(job, &texts));

    ctx.require("JSON round trips", 20_000);
    ctx.require("serde round trips", 20_000);
}

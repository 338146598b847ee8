//! The library executed under Miri: small cases over every part of it, so
//! that the interpreter sees each of its paths with real inputs. Miri is the
//! oracle (undefined behaviour, data races, dangling or unaligned access,
//! invalid values); what the library answers is judged by the other checks.
//!
//! hvmiri <group> <seed> <cases> <scratch>

#[path = "../../harness/src/gen.rs"]
#[allow(dead_code)]
mod gen;
#[path = "../../harness/src/net.rs"]
#[allow(dead_code)]
mod net;

use std::future::Future;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;

use hyperborealib::crypto::utils::{safe_random_u64, safe_random_u64_long};
use hyperborealib::port_forward::{PortForwarder, Protocol, UpnpPortForwarder};
use hyperborealib::prelude::*;
use hyperborealib::rest_api::types::{Client as ClientRecord, MessageInfo, Sender, Server as ServerRecord};
use serde_json::{json, Value as Json};

use gen::Rng;
use net::{Host, Net};

/// Calls into the library made so far.
static CALLS: AtomicU64 = AtomicU64::new(0);

fn call<T>(f: impl FnOnce() -> T) -> T {
    CALLS.fetch_add(1, Ordering::Relaxed);
    f()
}

async fn acall<F: Future>(f: F) -> F::Output {
    CALLS.fetch_add(1, Ordering::Relaxed);
    f.await
}

fn block_on<F: Future>(future: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().enable_time().build().expect("runtime").block_on(future)
}

fn keys(rng: &mut Rng) {
    let a = gen::secret(rng);
    let b = call(|| SecretKey::random_from(rng));
    let (pa, pb) = (call(|| a.public_key()), call(|| b.public_key()));

    let bytes = call(|| a.serialize());
    let _ = call(|| SecretKey::deserialize(&bytes));
    let _ = call(|| SecretKey::deserialize(&bytes[..rng.below(bytes.len() as u64) as usize]));
    let text = call(|| pa.to_base64());
    let _ = call(|| PublicKey::from_base64(&text));
    let _ = call(|| PublicKey::from_bytes(pb.to_bytes()));
    let _ = call(|| SecretKey::from_base64(a.to_base64()));

    let salt = rng.bytes(11);
    for salt in [None, Some(&salt[..]), Some(&[][..])] {
        call(|| a.create_shared_secret(&pb, salt));
    }

    let n = rng.below(80) as usize;
    let data = rng.bytes(n);
    let sign = call(|| a.create_signature(&data));
    let _ = call(|| pa.verify_signature(&data, &sign));
    let mut bad = sign.clone();
    bad[rng.below(sign.len() as u64) as usize] ^= 1 << rng.below(8);
    let _ = call(|| pa.verify_signature(&data, &bad));
    let _ = call(|| pb.verify_signature(&data, &sign[..rng.below(sign.len() as u64) as usize]));

    let capsule = call(|| a.create_encapsulated_signature(&data));
    let _ = call(|| pa.decode_encapsulated_signature(&capsule));
    let cut = &capsule[..rng.below(capsule.len() as u64) as usize];
    let _ = call(|| pa.decode_encapsulated_signature(cut));
    let mut long = capsule.clone();
    long[rng.below(8) as usize] ^= 0xff;
    let _ = call(|| pa.decode_encapsulated_signature(&long));
    let noise = rng.bytes(40);
    let _ = call(|| pa.decode_encapsulated_signature(&noise[..rng.below(40) as usize]));
    let _ = call(|| PublicKey::from_bytes(&noise[..33]));
}

fn messages(rng: &mut Rng) {
    let (a, b) = (gen::secret(rng), gen::secret(rng));
    let n = *rng.pick(&[0usize, 1, 15, 16, 17, 40, 64, 100]);
    let data = gen::content_of(rng, n);
    let encoding = MessageEncoding::new(
        Encoding::Base64,
        *rng.pick(gen::ENCRYPTIONS),
        *rng.pick(&[Compression::None, Compression::Deflate]),
    );

    let message = call(|| Message::create(&a, &b.public_key(), &data, encoding, CompressionLevel::Fast)).expect("message");
    let _ = call(|| message.read(&b, &a.public_key()));
    let _ = call(|| message.read(&a, &a.public_key()));

    let mut content = message.content.clone().into_bytes();
    if !content.is_empty() {
        let i = rng.below(content.len() as u64) as usize;
        content[i] = *rng.pick(b"AZaz09+/");
    }
    let forged = Message::new(String::from_utf8(content).unwrap(), message.sign.clone(), message.encoding);
    let _ = call(|| forged.read(&b, &a.public_key()));
}

fn ciphers(rng: &mut Rng) {
    let secret = rng.array32();
    for n in [0, 1, 16, 33, rng.below(200) as usize] {
        let data = rng.bytes(n);
        for cipher in gen::ENCRYPTIONS {
            let sealed = call(|| cipher.encrypt(&data, &secret)).expect("sealed");
            let _ = call(|| cipher.decrypt(&sealed, &secret));
            let cut = rng.below(sealed.len() as u64 + 1) as usize;
            let _ = call(|| cipher.decrypt(&sealed[..cut], &secret));
            let _ = call(|| cipher.decrypt(&data, &secret));
        }
        let text = call(|| Encoding::Base64.encode(&data));
        let _ = call(|| Encoding::Base64.decode(&text));
        let _ = call(|| Encoding::Base64.decode(&text[..text.len() / 2]));
    }
}

/// Compressed streams, whole, cut, damaged and made up.
fn streams(rng: &mut Rng, compression: Compression, max: u64) {
    let n = rng.below(max) as usize;
    let data = gen::content_of(rng, n);
    let level = if compression == Compression::Brotli { CompressionLevel::Fast } else { gen::level(rng) };
    let packed = call(|| compression.compress(&data, level)).expect("packed");
    let _ = call(|| compression.decompress(&packed));
    let cut = rng.below(packed.len() as u64 + 1) as usize;
    let _ = call(|| compression.decompress(&packed[..cut]));
    let mut bad = packed.clone();
    if !bad.is_empty() {
        let i = rng.below(bad.len() as u64) as usize;
        bad[i] ^= 1 << rng.below(8);
    }
    let _ = call(|| compression.decompress(&bad));
    let n = rng.below(20) as usize;
    let noise = rng.bytes(n);
    let _ = call(|| compression.decompress(&noise));
}

fn values(rng: &mut Rng) {
    fn both<T: AsJson>(value: &T) {
        let mut json = call(|| value.to_json()).expect("json");
        let _ = call(|| T::from_json(&json));
        if let Some(object) = json.as_object_mut() {
            let name = object.keys().next().cloned();
            if let Some(name) = name {
                object.insert(name, Json::Null);
            }
        }
        let _ = call(|| T::from_json(&json));
        let _ = call(|| T::from_json(&Json::Array(vec![json!(1)])));
    }

    let me = gen::secret(rng);
    let server = gen::secret(rng);
    let client = gen::client_record(rng, &me, &server.public_key());
    let record = gen::server_record(rng, server.public_key());
    let certificate = client.certificate.clone();
    let message = gen::raw_message(rng);
    let sender = Sender::new(client.clone(), record.clone());
    let info = MessageInfo::new(sender.clone(), gen::string(rng, 20), message.clone(), gen::int(rng));

    both(&client);
    both(&record);
    both(&certificate);
    both(&gen::client_info(rng));
    both(&message);
    both(&sender);
    both(&info);
    let _ = call(|| certificate.validate(&me.public_key(), &server.public_key()));
    let token = call(|| certificate.token.to_bytes());
    let _ = call(|| ConnectionToken::from_bytes(&token));
    let _ = call(|| ConnectionToken::from_bytes(&token[..rng.below(token.len() as u64) as usize]));

    let proof = gen::int(rng);
    both(&call(|| ConnectRequest::new(&me, server.public_key(), client.info.clone())));
    both(&call(|| LookupRequest::new(&me, server.public_key(), gen::opt_client_type(rng))));
    both(&call(|| PollRequest::new(&me, gen::string(rng, 10), Some(proof))));
    both(&call(|| AnnounceRequest::client(&me, client.clone(), record.clone())));
    both(&call(|| SendRequest::new(&me, sender.clone(), server.public_key(), gen::string(rng, 9), message.clone())));
    both(&call(|| PollResponse::success(ResponseStatus::Success, &server, proof, PollResponseBody { messages: vec![info.clone()], remaining: 3 })));

    let scheme = *rng.pick(&["hyperborea", "hyp", "hyp-server", "http", "https", "x"]);
    let kind = *rng.pick(&["", "thin:", "thick:", "server:", "file:", "é:"]);
    let _ = call(|| parse_uri(format!("{scheme}://{kind}{}", me.public_key().to_base64())));
    let _ = call(|| parse_uri(gen::string(rng, 12)));
    let _ = call(|| gen::string(rng, 8).parse::<MessageEncoding>());
    let _ = call(|| message.encoding.to_string().parse::<MessageEncoding>());
}

/// Router and inbox on their folders, used by several tasks.
fn storage(rng: &mut Rng, dir: PathBuf) {
    std::fs::create_dir_all(&dir).expect("scratch");
    let (a, b) = (gen::secret(rng), gen::secret(rng));
    let server = gen::server_record(rng, b.public_key());
    let client = gen::client_record(rng, &a, &b.public_key());
    let sender = Sender::new(client.clone(), server.clone());
    let messages: Vec<Message> = (0..3).map(|_| gen::raw_message(rng)).collect();

    block_on(async {
        for round in 0..2 {
            let router = acall(GlobalTableRouter::new(dir.join("router"))).await.expect("router");
            let inbox = acall(StoredQueueMessagesInbox::new(dir.join("inbox"))).await.expect("inbox");

            let _ = acall(router.index_server(server.clone())).await;
            let _ = acall(router.index_local_client(client.clone())).await;
            let _ = acall(router.index_remote_client(client.clone(), server.clone())).await;
            let _ = acall(router.local_clients()).await;
            let _ = acall(router.remote_clients()).await;
            let _ = acall(router.servers()).await;
            let _ = acall(router.lookup_local_client(&a.public_key(), None)).await;
            let _ = acall(router.lookup_remote_client(&a.public_key(), None)).await;
            let _ = acall(router.lookup_server(&b.public_key())).await;

            let (one, two) = tokio::join!(
                async {
                    for message in &messages {
                        let _ = acall(inbox.add_message(sender.clone(), a.public_key(), "channel".into(), message.clone())).await;
                    }
                },
                acall(inbox.poll_messages(a.public_key(), "channel".into(), Some(1))),
            );
            let _ = (one, two);
            let _ = acall(inbox.poll_messages(a.public_key(), "channel".into(), if round == 0 { Some(1) } else { None })).await;
            let _ = acall(router.disconnect(&a.public_key())).await;
        }
    });
}

/// Everything that is shared between threads, from several threads at once.
fn threads(rng: &mut Rng) {
    let start = Arc::new(std::sync::Barrier::new(3));
    let me = gen::secret(rng);
    let forwarder = Arc::new(UpnpPortForwarder::default());

    let workers: Vec<_> = (0..3u16).map(|i| {
        let (start, me, forwarder, mut rng) = (start.clone(), me.clone(), forwarder.clone(), rng.fork());
        std::thread::spawn(move || {
            start.wait();
            // first uses of whatever is initialised lazily meet each other
            for turn in 0..3u16 {
                match (i + turn) % 3 {
                    0 => {
                        call(safe_random_u64);
                        call(safe_random_u64_long);
                        let _ = call(|| Compression::Deflate.compress(b"threads", CompressionLevel::Fast));
                        let _ = call(|| Encoding::Base64.decode("AAAA"));
                    }
                    1 => {
                        let sign = call(|| me.create_signature(b"threads"));
                        let _ = call(|| me.public_key().verify_signature(b"threads", &sign));
                    }
                    _ => {
                        let _ = block_on(forwarder.open(1000 + rng.below(2) as u16, Protocol::Both, Duration::from_secs(9)));
                        let _ = block_on(forwarder.close(1000 + rng.below(2) as u16, Protocol::TCP));
                        CALLS.fetch_add(2, Ordering::Relaxed);
                    }
                }
            }
        })
    }).collect();

    for worker in workers {
        let _ = worker.join();
    }
    let _ = block_on(acall(forwarder.discard()));
}

/// Storage from threads of their own runtimes.
fn racing(rng: &mut Rng, dir: PathBuf) {
    std::fs::create_dir_all(&dir).expect("scratch");
    let server = gen::secret(rng);
    let record = gen::server_record(rng, server.public_key());
    let router = Arc::new(block_on(GlobalTableRouter::new(dir.join("router"))).expect("router"));
    let inbox = Arc::new(block_on(StoredQueueMessagesInbox::new(dir.join("inbox"))).expect("inbox"));
    let receiver = server.public_key();

    let workers: Vec<_> = (0..3).map(|_| {
        let (router, inbox, record, receiver, mut rng) = (router.clone(), inbox.clone(), record.clone(), receiver.clone(), rng.fork());
        std::thread::spawn(move || {
            let me = gen::secret(&mut rng);
            let client = gen::client_record(&mut rng, &me, &receiver);
            block_on(async {
                let _ = acall(router.index_local_client(client.clone())).await;
                let _ = acall(inbox.add_message(Sender::new(client.clone(), record.clone()), receiver.clone(), "c".into(), gen::raw_message(&mut rng))).await;
                let _ = acall(router.index_server(record.clone())).await;
                let _ = acall(router.local_clients()).await;
                let _ = acall(inbox.poll_messages(receiver.clone(), "c".into(), Some(1))).await;
                let _ = acall(router.disconnect(&me.public_key())).await;
            });
        })
    }).collect();

    for worker in workers {
        let _ = worker.join();
    }
}

/// A server and two clients: every operation of the protocol once.
fn conversation(rng: &mut Rng, dir: PathBuf, part: u64) {
    std::fs::create_dir_all(&dir).expect("scratch");
    let net = Net::new();
    let (server, a, b) = (gen::secret(rng), gen::secret(rng), gen::secret(rng));

    block_on(async {
        let host = acall(Host::start(&net, "s", server, dir)).await;
        let anna = ClientMiddleware::new(net.client(1), ClientDriver::thin(a.clone()));

        match part % 4 {
            0 => {
                let _ = acall(anna.get_info("s")).await;
                let connected = acall(anna.connect("s")).await.ok().expect("connected");
                let _ = acall(connected.lookup(a.public_key(), None)).await;
                let _ = acall(connected.disconnect()).await;
            }
            1 => {
                let connected = acall(anna.connect_to("s", host.public())).await.ok().expect("connected");
                let message = Message::create(&a, &a.public_key(), b"note to self", MessageEncoding::default(), CompressionLevel::Fast).expect("message");
                let _ = acall(connected.send(format!("hyp://{}", a.public_key().to_base64()), a.public_key(), "notes", message)).await;
                let _ = acall(connected.poll("notes", None)).await;
            }
            2 => {
                let boris = ClientMiddleware::new(net.client(2), ClientDriver::new(ClientInfo::thick("b"), b.clone()));
                let one = acall(anna.connect_to("s", host.public())).await.ok().expect("connected");
                let _ = acall(one.announce("http://s")).await;
                let _ = acall(one.lookup(b.public_key(), None)).await;
                let _ = acall(boris.get_clients("s")).await;
                let _ = acall(boris.get_servers("s")).await;
            }
            _ => {
                let far = gen::secret(rng);
                let _ = host.driver.router().index_server(ServerRecord::new(far.public_key(), "nowhere")).await;
                let client: ClientRecord = gen::client_record(rng, &b, &far.public_key());
                let _ = acall(host.driver.router().index_remote_client(client, ServerRecord::new(far.public_key(), "nowhere"))).await;
                let _ = acall(host.driver.traversal().traverse(net.client(3), &host.driver)).await;
                for (path, body) in [("/api/v1/poll", "{}"), ("/api/v1/lookup", "[1"), ("/api/v1/send", r#"{"standard":1,"request":{}}"#)] {
                    let _ = acall(net.raw("s", "POST", path, Some(body.as_bytes().to_vec()))).await;
                }
            }
        }
    });
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (group, seed, cases) = (args[1].as_str(), args[2].parse::<u64>().unwrap(), args[3].parse::<u64>().unwrap());
    let scratch = PathBuf::from(&args[4]);

    for index in 0..cases {
        let rng = Rng::new(seed, &format!("miri/{group}"), index);
        let dir = scratch.join(format!("{group}-{seed}-{index}"));

        // what the library answers, or that it panics, is not judged here
        let result = std::panic::catch_unwind(move || {
            let mut rng = rng;
            match group_of(group) {
                Group::Keys => keys(&mut rng),
                Group::Messages => messages(&mut rng),
                Group::Ciphers => ciphers(&mut rng),
                Group::Deflate => streams(&mut rng, Compression::Deflate, 3000),
                Group::Brotli => streams(&mut rng, Compression::Brotli, 200),
                Group::Values => values(&mut rng),
                Group::Storage => storage(&mut rng, dir),
                Group::Threads => threads(&mut rng),
                Group::Racing => racing(&mut rng, dir),
                Group::Conversation => conversation(&mut rng, dir, seed + index),
            }
        });

        println!("case {group}#{index} {} {}", if result.is_ok() { "ended" } else { "panicked" }, CALLS.swap(0, Ordering::Relaxed));
    }
    println!("all cases ended");
}

#[derive(Clone, Copy)]
enum Group {
    Keys,
    Messages,
    Ciphers,
    Deflate,
    Brotli,
    Values,
    Storage,
    Threads,
    Racing,
    Conversation,
}

fn group_of(name: &str) -> Group {
    match name {
        "keys" => Group::Keys,
        "messages" => Group::Messages,
        "ciphers" => Group::Ciphers,
        "deflate" => Group::Deflate,
        "brotli" => Group::Brotli,
        "values" => Group::Values,
        "storage" => Group::Storage,
        "threads" => Group::Threads,
        "racing" => Group::Racing,
        "conversation" => Group::Conversation,
        other => panic!("unknown group {other}"),
    }
}

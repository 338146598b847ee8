//! Deterministic, boundary-rich generators.

use rand_chacha::rand_core::{CryptoRng, RngCore, SeedableRng};
use rand_chacha::ChaCha8Rng;

use hyperborealib::prelude::*;
use hyperborealib::rest_api::types::{Client as ClientRecord, Server as ServerRecord};

#[derive(Clone)]
pub struct Rng(ChaCha8Rng);

impl Rng {
    pub fn new(seed: u64, kind: &str, index: u64) -> Self {
        use sha2::Digest;
        let mut hash = sha2::Sha256::new();
        hash.update(seed.to_be_bytes());
        hash.update(kind.as_bytes());
        hash.update(index.to_be_bytes());
        Self(ChaCha8Rng::from_seed(hash.finalize().into()))
    }

    pub fn fork(&mut self) -> Self {
        let mut seed = [0; 32];
        self.0.fill_bytes(&mut seed);
        Self(ChaCha8Rng::from_seed(seed))
    }

    pub fn u64(&mut self) -> u64 {
        self.0.next_u64()
    }

    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.0.next_u64() % n }
    }

    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }

    pub fn chance(&mut self, percent: u64) -> bool {
        self.below(100) < percent
    }

    pub fn bool(&mut self) -> bool {
        self.0.next_u32() & 1 == 1
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len() as u64) as usize]
    }

    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut out = vec![0; n];
        self.0.fill_bytes(&mut out);
        out
    }

    pub fn shuffle<T>(&mut self, items: &mut [T]) {
        for i in (1..items.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            items.swap(i, j);
        }
    }

    pub fn array32(&mut self) -> [u8; 32] {
        let mut out = [0; 32];
        self.0.fill_bytes(&mut out);
        out
    }
}

impl RngCore for Rng {
    fn next_u32(&mut self) -> u32 { self.0.next_u32() }
    fn next_u64(&mut self) -> u64 { self.0.next_u64() }
    fn fill_bytes(&mut self, dest: &mut [u8]) { self.0.fill_bytes(dest) }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_chacha::rand_core::Error> {
        self.0.fill_bytes(dest);
        Ok(())
    }
}

impl CryptoRng for Rng {}

pub const LENGTHS: &[usize] = &[
    0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 41, 42, 47, 48, 49, 55, 56, 57, 63, 64, 65, 71, 72, 73,
    100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097,
];

pub fn length(rng: &mut Rng, max: usize) -> usize {
    let n = match rng.below(10) {
        0..=4 => *rng.pick(LENGTHS),
        5..=7 => rng.below(300) as usize,
        8 => rng.below(20_000) as usize,
        _ => *rng.pick(&[8191, 8192, 8193, 16383, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 100_000, 131_073]),
    };
    n.min(max)
}

/// Content bytes of the given length, in different flavours.
pub fn content_of(rng: &mut Rng, n: usize) -> Vec<u8> {
    match rng.below(9) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => {
            let b = rng.u64() as u8;
            vec![b; n]
        }
        3 => (0..n).map(|_| *rng.pick(b"etaoin shrdlu.,\n")).collect(),
        4 => {
            // long repetitions with random interruptions
            let p = rng.range(1, 40) as usize;
            let unit = rng.bytes(p);
            let mut out: Vec<u8> = unit.iter().cycle().take(n).copied().collect();
            for _ in 0..rng.below(8) {
                if n > 0 {
                    let i = rng.below(n as u64) as usize;
                    out[i] ^= 1 << rng.below(8);
                }
            }
            out
        }
        5 => (0..n).map(|i| i as u8).collect(),
        6 => {
            let mut out = Vec::with_capacity(n);
            while out.len() < n {
                out.extend_from_slice(string(rng, 20).as_bytes());
                out.push(b'"');
            }
            out.truncate(n);
            out
        }
        _ => rng.bytes(n),
    }
}

pub fn content(rng: &mut Rng, max: usize) -> Vec<u8> {
    let n = length(rng, max);
    // contents that look like the outcome of a step on their way
    #[cfg(not(miri))]
    if rng.chance(8) {
        let inner = content_of(rng, n);
        return match rng.below(6) {
            0 => crate::refimpl::deflate(&inner, 6),
            1 => crate::refimpl::brotlied(&inner, 5),
            2 => crate::refimpl::b64(&inner).into_bytes(),
            3 => [&[0x1f, 0x8b, 8, 0][..], &inner].concat(),
            4 => [&[0x78, 0x9c][..], &inner].concat(),
            _ => serde_json::json!({ "content": crate::refimpl::b64(&inner), "sign": "" }).to_string().into_bytes(),
        };
    }
    content_of(rng, n)
}

const CHARS: &[char] = &[
    'a', 'b', 'z', 'A', 'Z', '0', '9', ' ', '-', '_', '.', '/', '\\', '"', '\'', ':', ';', '%', '*', '?', '<', '>', '|', '&', '#', '=', '+', '~', '`', '^', '@', '!', ',', '(', ')', '[', ']', '{', '}', '$',
    '\0', '\n', '\r', '\t', '\u{1}', '\u{7f}', '\u{80}', '\u{a0}', 'é', 'ß', 'И', '中', '\u{2028}', '\u{200b}', '\u{202e}', '\u{feff}', '\u{fffd}', '😀', '\u{10ffff}', '\u{301}',
];

pub fn string(rng: &mut Rng, max: usize) -> String {
    let n = match rng.below(10) {
        0 => 0,
        1..=6 => rng.below(max.min(12) as u64 + 1) as usize,
        _ => rng.below(max as u64 + 1) as usize,
    };
    let ascii = rng.bool();
    (0..n).map(|_| {
        if ascii {
            *rng.pick(&CHARS[..10])
        } else if rng.chance(70) {
            *rng.pick(CHARS)
        } else {
            char::from_u32(rng.below(0x11_0000) as u32).unwrap_or('x')
        }
    }).collect()
}

pub fn word(rng: &mut Rng, max: u64) -> String {
    let n = rng.range(1, max);
    (0..n).map(|_| *rng.pick(b"abcdefghijklmnopqrstuvwxyz0123456789") as char).collect()
}

pub fn int(rng: &mut Rng) -> u64 {
    match rng.below(12) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => u64::MAX - 1,
        4 => 1 << 63,
        5 => (1 << 63) - 1,
        6 => i64::MAX as u64 + rng.below(3),
        7 => u32::MAX as u64 + rng.below(3),
        8 => (1 << 53) + rng.below(4),
        9 => rng.below(1000),
        10 => rng.u64() >> rng.below(64),
        _ => rng.u64(),
    }
}

pub fn secret(rng: &mut Rng) -> SecretKey {
    loop {
        let bytes = match rng.below(40) {
            // scalars with leading zero bytes and other shapes
            0 => {
                let mut b = [0; 32];
                b[31] = rng.range(1, 255) as u8;
                b
            }
            1 => {
                let mut b = rng.array32();
                b[0] = 0;
                b[1] = 0;
                b
            }
            _ => rng.array32(),
        };
        if let Ok(key) = k256::SecretKey::from_slice(&bytes) {
            return SecretKey::from(key);
        }
    }
}

/// Raw scalar of a secret key without going through the library.
pub fn secret_bytes(rng: &mut Rng) -> [u8; 32] {
    loop {
        let bytes = rng.array32();
        if k256::SecretKey::from_slice(&bytes).is_ok() {
            return bytes;
        }
    }
}

pub fn client_type(rng: &mut Rng) -> ClientType {
    *rng.pick(&[ClientType::Thin, ClientType::Thick, ClientType::Server, ClientType::File])
}

pub fn opt_client_type(rng: &mut Rng) -> Option<ClientType> {
    if rng.bool() { None } else { Some(client_type(rng)) }
}

pub fn client_info(rng: &mut Rng) -> ClientInfo {
    let address = if rng.bool() { None } else { Some(string(rng, 30)) };
    ClientInfo::new(client_type(rng), address)
}

pub fn auth_date(rng: &mut Rng) -> u64 {
    match rng.below(3) {
        0 => int(rng),
        _ => 1_700_000_000 + rng.below(100_000),
    }
}

pub fn certificate_at(secret: &SecretKey, server: &PublicKey, auth_date: u64) -> ConnectionCertificate {
    let token = ConnectionToken::new(auth_date, server.clone());
    let sign = secret.create_signature(token.to_bytes());
    ConnectionCertificate { token, sign }
}

pub fn client_record(rng: &mut Rng, secret: &SecretKey, server: &PublicKey) -> ClientRecord {
    let date = auth_date(rng);
    ClientRecord::new(secret.public_key(), certificate_at(secret, server, date), client_info(rng))
}

pub fn server_record(rng: &mut Rng, public: PublicKey) -> ServerRecord {
    ServerRecord::new(public, string(rng, 40))
}

pub fn encoding(rng: &mut Rng) -> MessageEncoding {
    MessageEncoding::new(
        Encoding::Base64,
        *rng.pick(ENCRYPTIONS),
        *rng.pick(COMPRESSIONS),
    )
}

pub const ENCRYPTIONS: &[Encryption] = &[Encryption::None, Encryption::Aes256Gcm, Encryption::ChaCha20Poly1305];
pub const COMPRESSIONS: &[Compression] = &[Compression::None, Compression::Deflate, Compression::Brotli];
pub const LEVELS: &[CompressionLevel] = &[CompressionLevel::Fast, CompressionLevel::Balanced, CompressionLevel::Quality];

pub fn level(rng: &mut Rng) -> CompressionLevel {
    *rng.pick(LEVELS)
}

/// A message which need not be readable: any strings, any encoding.
pub fn raw_message(rng: &mut Rng) -> Message {
    Message::new(string(rng, 60), string(rng, 60), encoding(rng))
}

pub fn sender_record(rng: &mut Rng) -> Sender {
    let client = secret(rng);
    let server = secret(rng).public_key();
    let record = client_record(rng, &client, &server);
    Sender::new(record, server_record(rng, server))
}

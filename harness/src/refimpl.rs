//! An independent implementation of standard version 1, used as the oracle of
//! the wire-format monitors. It shares only the primitive crates (curve
//! arithmetic, hashes, ciphers, compressors) with the library; layouts,
//! constants, key derivation and text forms are written out here.

use std::io::{Read, Write};

use k256::ecdsa::signature::{Signer, Verifier};
use k256::elliptic_curve::sec1::ToEncodedPoint;
use serde_json::{json, Value as Json};

pub const INFO: [u8; 64] = [
    162, 241, 203, 77, 49, 90, 31, 126, 67, 94, 191, 219, 56, 141, 46, 233, 70, 18, 207, 194, 52, 154, 176, 139, 244, 222, 155, 110, 177, 91, 32, 218,
    150, 232, 148, 23, 13, 172, 48, 131, 95, 216, 144, 224, 163, 106, 254, 135, 93, 220, 84, 116, 42, 3, 211, 57, 186, 174, 208, 121, 253, 185, 210, 240,
];
pub const AES_NONCE: [u8; 12] = [234, 90, 0, 39, 141, 73, 94, 100, 178, 97, 128, 118];
pub const CHACHA_NONCE: [u8; 12] = [197, 93, 164, 33, 103, 79, 137, 143, 186, 253, 74, 220];

const ALPHABET: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

pub fn b64(data: &[u8]) -> String {
    let mut out = String::new();
    for chunk in data.chunks(3) {
        let b = [chunk[0], *chunk.get(1).unwrap_or(&0), *chunk.get(2).unwrap_or(&0)];
        let n = (b[0] as u32) << 16 | (b[1] as u32) << 8 | b[2] as u32;
        for i in 0..4 {
            if i <= chunk.len() {
                out.push(ALPHABET[(n >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                out.push('=');
            }
        }
    }
    out
}

pub fn unb64(text: &str) -> Option<Vec<u8>> {
    let bytes = text.as_bytes();
    if bytes.len() % 4 != 0 {
        return None;
    }
    let mut out = Vec::new();
    let groups = bytes.len() / 4;
    for (g, group) in bytes.chunks(4).enumerate() {
        let pad = group.iter().rev().take_while(|b| **b == b'=').count();
        if pad > 2 || (pad > 0 && g + 1 != groups) {
            return None;
        }
        let mut n = 0u32;
        for (i, b) in group.iter().enumerate() {
            let v = if i >= 4 - pad { 0 } else { ALPHABET.iter().position(|a| a == b)? as u32 };
            n = n << 6 | v;
        }
        let b = [(n >> 16) as u8, (n >> 8) as u8, n as u8];
        // canonical trailing bits
        if pad > 0 && b[3 - pad..].iter().any(|b| *b != 0) {
            return None;
        }
        out.extend_from_slice(&b[..3 - pad]);
    }
    Some(out)
}

fn hmac(key: &[u8], parts: &[&[u8]]) -> [u8; 32] {
    use hmac::Mac;
    let mut mac = <hmac::Hmac<sha2::Sha256> as Mac>::new_from_slice(key).expect("hmac key");
    for part in parts {
        mac.update(part);
    }
    mac.finalize().into_bytes().into()
}

pub fn public_of(secret: &[u8; 32]) -> [u8; 33] {
    let key = k256::SecretKey::from_slice(secret).expect("scalar");
    let point = key.public_key().to_encoded_point(true);
    point.as_bytes().try_into().expect("33 bytes")
}

pub fn shared(secret: &[u8; 32], public: &[u8; 33], salt: Option<&[u8]>) -> [u8; 32] {
    let scalar = k256::SecretKey::from_slice(secret).expect("scalar");
    let point = k256::PublicKey::from_sec1_bytes(public).expect("point");
    let product = point.to_projective() * *scalar.to_nonzero_scalar();
    let x: [u8; 32] = product.to_affine().to_encoded_point(false).x().copied().expect("x").into();
    let prk = hmac(salt.unwrap_or(&[0; 32]), &[&x]);
    hmac(&prk, &[&INFO, &[1]])
}

pub fn sign(secret: &[u8; 32], message: &[u8]) -> Vec<u8> {
    let key = k256::ecdsa::SigningKey::from_slice(secret).expect("scalar");
    let sign: k256::ecdsa::Signature = key.sign(message);
    sign.to_bytes().to_vec()
}

pub fn verify(public: &[u8; 33], message: &[u8], sign: &[u8]) -> bool {
    let (Ok(key), Ok(sign)) = (k256::ecdsa::VerifyingKey::from_sec1_bytes(public), k256::ecdsa::Signature::from_slice(sign)) else {
        return false;
    };
    key.verify(message, &sign).is_ok()
}

pub fn aes_seal(key: &[u8; 32], data: &[u8]) -> Vec<u8> {
    use aes_gcm::{aead::Aead, KeyInit};
    aes_gcm::Aes256Gcm::new(key.into()).encrypt(&AES_NONCE.into(), data).expect("seal")
}

pub fn aes_open(key: &[u8; 32], data: &[u8]) -> Option<Vec<u8>> {
    use aes_gcm::{aead::Aead, KeyInit};
    aes_gcm::Aes256Gcm::new(key.into()).decrypt(&AES_NONCE.into(), data).ok()
}

pub fn chacha_seal(key: &[u8; 32], data: &[u8]) -> Vec<u8> {
    use chacha20poly1305::{aead::Aead, KeyInit};
    chacha20poly1305::ChaCha20Poly1305::new(key.into()).encrypt(&CHACHA_NONCE.into(), data).expect("seal")
}

pub fn chacha_open(key: &[u8; 32], data: &[u8]) -> Option<Vec<u8>> {
    use chacha20poly1305::{aead::Aead, KeyInit};
    chacha20poly1305::ChaCha20Poly1305::new(key.into()).decrypt(&CHACHA_NONCE.into(), data).ok()
}

pub fn inflate(data: &[u8]) -> Option<Vec<u8>> {
    let mut out = Vec::new();
    flate2::read::DeflateDecoder::new(data).read_to_end(&mut out).ok()?;
    Some(out)
}

pub fn deflate(data: &[u8], level: u32) -> Vec<u8> {
    let mut encoder = flate2::write::DeflateEncoder::new(Vec::new(), flate2::Compression::new(level));
    encoder.write_all(data).expect("deflate");
    encoder.finish().expect("deflate")
}

pub fn unbrotli(data: &[u8]) -> Option<Vec<u8>> {
    let mut out = Vec::new();
    brotli::Decompressor::new(data, 4096).read_to_end(&mut out).ok()?;
    Some(out)
}

pub fn brotlied(data: &[u8], quality: u32) -> Vec<u8> {
    let mut out = Vec::new();
    brotli::CompressorReader::new(data, 4096, quality, 20).read_to_end(&mut out).expect("brotli");
    out
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Enc {
    /// 0 plain, 1 aes256-gcm, 2 chacha20-poly1305
    pub cipher: u8,
    /// 0 plain, 1 deflate, 2 brotli
    pub compression: u8,
}

impl Enc {
    pub fn name(&self) -> String {
        let mut out = String::from("base64");
        match self.cipher {
            1 => out.push_str("/aes256-gcm"),
            2 => out.push_str("/chacha20-poly1305"),
            _ => (),
        }
        match self.compression {
            1 => out.push_str("/deflate"),
            2 => out.push_str("/brotli"),
            _ => (),
        }
        out
    }

    pub fn forward(&self, data: &[u8], key: &[u8; 32], quality: u32) -> String {
        let data = match self.compression {
            1 => deflate(data, quality.min(9)),
            2 => brotlied(data, quality.min(11)),
            _ => data.to_vec(),
        };
        let data = match self.cipher {
            1 => aes_seal(key, &data),
            2 => chacha_seal(key, &data),
            _ => data,
        };
        b64(&data)
    }

    pub fn backward(&self, text: &str, key: &[u8; 32]) -> Option<Vec<u8>> {
        let data = unb64(text)?;
        let data = match self.cipher {
            1 => aes_open(key, &data)?,
            2 => chacha_open(key, &data)?,
            _ => data,
        };
        match self.compression {
            1 => inflate(&data),
            2 => unbrotli(&data),
            _ => Some(data),
        }
    }
}

pub fn token(auth_date: u64, server: &[u8; 33]) -> Vec<u8> {
    let mut out = auth_date.to_be_bytes().to_vec();
    out.extend_from_slice(server);
    out
}

pub fn capsule(secret: &[u8; 32], message: &[u8]) -> Vec<u8> {
    let sign = sign(secret, message);
    let mut out = (sign.len() as u64).to_be_bytes().to_vec();
    out.extend_from_slice(&sign);
    out.extend_from_slice(message);
    out
}

pub fn certificate_json(secret: &[u8; 32], auth_date: u64, server: &[u8; 33]) -> Json {
    let token = token(auth_date, server);
    json!({ "token": b64(&token), "sign": b64(&sign(secret, &token)) })
}

pub fn info_json(kind: &str, address: Option<&str>) -> Json {
    json!({ "type": kind, "address": address })
}

pub fn client_json(secret: &[u8; 32], auth_date: u64, server: &[u8; 33], info: &Json) -> Json {
    json!({
        "public_key": b64(&public_of(secret)),
        "certificate": certificate_json(secret, auth_date, server),
        "client": info
    })
}

pub fn server_json(public: &[u8; 33], address: &str) -> Json {
    json!({ "public_key": b64(public), "address": address })
}

pub fn message_json(sender: &[u8; 32], receiver: &[u8; 33], data: &[u8], enc: Enc, quality: u32) -> Json {
    let key = shared(sender, receiver, None);
    json!({
        "content": enc.forward(data, &key, quality),
        "sign": enc.forward(&sign(sender, data), &key, quality),
        "encoding": enc.name()
    })
}

pub fn request_json(secret: &[u8; 32], seed: u64, body: Json) -> Json {
    json!({
        "standard": 1,
        "public_key": b64(&public_of(secret)),
        "proof": { "seed": seed, "sign": b64(&sign(secret, &seed.to_be_bytes())) },
        "request": body
    })
}

pub fn success_json(secret: &[u8; 32], seed: u64, body: Json) -> Json {
    json!({
        "standard": 1,
        "status": 100,
        "public_key": b64(&public_of(secret)),
        "proof": { "sign": b64(&sign(secret, &seed.to_be_bytes())) },
        "response": body
    })
}

pub fn error_json(code: u64, reason: &str) -> Json {
    json!({ "standard": 1, "status": code, "reason": reason })
}

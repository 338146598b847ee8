//! Real HTTP on the loopback network: servers under test and raw clients.

use std::net::SocketAddr;
use std::path::Path;
use std::sync::Arc;
use std::time::Duration;

use hyperborealib::prelude::*;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpStream;

use crate::net::{driver, RealDriver};

pub type HttpServerUnderTest = ServerMiddleware<ReqwestHttpClient, AxumHttpServer, GlobalTableRouter, BfsRecursionTraversal, StoredQueueMessagesInbox>;

pub struct Running {
    pub address: SocketAddr,
    pub secret: SecretKey,
    pub driver: Option<Arc<RealDriver>>,
    task: tokio::task::JoinHandle<()>,
}

impl Running {
    pub fn host(&self) -> String {
        self.address.to_string()
    }
}

impl Drop for Running {
    fn drop(&mut self) {
        self.task.abort();
    }
}

/// A free loopback port. Another process may take it before we do, so callers
/// retry.
pub fn free_port() -> SocketAddr {
    let socket = std::net::TcpListener::bind(("127.0.0.1", 0)).expect("loopback");
    socket.local_addr().expect("address")
}

pub async fn answers(address: SocketAddr) -> bool {
    for _ in 0..400 {
        if TcpStream::connect(address).await.is_ok() {
            return true;
        }
        tokio::time::sleep(Duration::from_millis(5)).await;
    }
    false
}

/// The complete server of the library on a loopback port.
pub async fn start(dir: &Path, secret: SecretKey) -> Running {
    for _ in 0..20 {
        let address = free_port();
        let driver = driver(dir, &secret, &address.to_string()).await.expect("server folders");
        let server: HttpServerUnderTest = ServerMiddleware::new(ReqwestHttpClient::default(), AxumHttpServer::default(), driver).await;
        let driver = server.driver();
        let task = tokio::spawn(async move {
            let _ = server.serve(address).await;
        });
        tokio::time::sleep(Duration::from_millis(2)).await;
        if answers(address).await && !task.is_finished() {
            return Running { address, secret, driver: Some(driver), task };
        }
    }
    panic!("no loopback port could be served");
}

/// Any routes of the library's HTTP server on a loopback port.
pub async fn start_routes(server: AxumHttpServer) -> Running {
    for _ in 0..20 {
        let address = free_port();
        let server = server.clone();
        let task = tokio::spawn(async move {
            let _ = server.serve(address).await;
        });
        tokio::time::sleep(Duration::from_millis(2)).await;
        if answers(address).await && !task.is_finished() {
            return Running { address, secret: SecretKey::random(), driver: None, task };
        }
    }
    panic!("no loopback port could be served");
}

#[derive(Debug, Clone)]
pub struct RawReply {
    pub status: u16,
    pub body: Vec<u8>,
}

pub fn parse_reply(bytes: &[u8]) -> Option<RawReply> {
    let end = bytes.windows(4).position(|w| w == b"\r\n\r\n")?;
    let head = std::str::from_utf8(&bytes[..end]).ok()?;
    let mut lines = head.split("\r\n");
    let status = lines.next()?.split(' ').nth(1)?.parse().ok()?;
    let chunked = lines.any(|line| line.eq_ignore_ascii_case("transfer-encoding: chunked"));
    let body = bytes[end + 4..].to_vec();
    if chunked {
        return None;
    }
    Some(RawReply { status, body })
}

/// One request on its own connection, the reply read to the end.
pub async fn raw_request(address: SocketAddr, method: &str, path: &str, body: &[u8]) -> Result<RawReply, String> {
    let work = async {
        let mut stream = TcpStream::connect(address).await.map_err(|e| e.to_string())?;
        let head = format!("{method} {path} HTTP/1.1\r\nHost: {address}\r\nConnection: close\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n", body.len());
        stream.write_all(head.as_bytes()).await.map_err(|e| e.to_string())?;
        // the server may reply before it has read everything
        let _ = stream.write_all(body).await;
        let mut out = Vec::new();
        let _ = stream.read_to_end(&mut out).await;
        parse_reply(&out).ok_or_else(|| format!("no reply ({} bytes)", out.len()))
    };
    tokio::time::timeout(Duration::from_secs(60), work).await.map_err(|_| "no reply in 60 s".to_string())?
}

pub fn multi() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().expect("runtime")
}

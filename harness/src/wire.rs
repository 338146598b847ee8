//! Every wire type with its generator: one table used by the serialisation
//! (C06), hostile input (C07) and sanitizer monitors.

use hyperborealib::prelude::*;
use hyperborealib::rest_api::types::{Client as ClientRecord, Server as ServerRecord};

use crate::gen::{self, Rng};

pub fn few(rng: &mut Rng) -> u64 {
    match rng.below(20) {
        0..=5 => 0,
        6..=11 => 1,
        12..=17 => rng.range(2, 4),
        _ => rng.range(5, 40),
    }
}

pub fn many<T>(rng: &mut Rng, mut make: impl FnMut(&mut Rng) -> T) -> Vec<T> {
    let n = few(rng);
    (0..n).map(|_| make(rng)).collect()
}

pub fn client(rng: &mut Rng) -> ClientRecord {
    let secret = gen::secret(rng);
    let server = gen::secret(rng).public_key();
    let mut client = gen::client_record(rng, &secret, &server);
    if rng.chance(20) {
        client.certificate.sign = gen::content(rng, 200);
    }
    client
}

pub fn server(rng: &mut Rng) -> ServerRecord {
    let key = gen::secret(rng).public_key();
    gen::server_record(rng, key)
}

pub fn sender(rng: &mut Rng) -> Sender {
    Sender::new(client(rng), server(rng))
}

pub fn message_info(rng: &mut Rng) -> MessageInfo {
    let sender = sender(rng);
    MessageInfo::new(sender, gen::string(rng, 40), gen::raw_message(rng), gen::int(rng))
}

pub fn status(rng: &mut Rng) -> ResponseStatus {
    *rng.pick(STATUSES)
}

pub const STATUSES: &[ResponseStatus] = &[
    ResponseStatus::Success,
    ResponseStatus::ServerError,
    ResponseStatus::InvalidRequestStructure,
    ResponseStatus::RequestValidationFailed,
    ResponseStatus::ClientLookupTimeout,
    ResponseStatus::ClientNotFound,
    ResponseStatus::ClientNotConnected,
    ResponseStatus::ClientInboxFull,
    ResponseStatus::MessageTooLarge,
];

/// A request header with any seed and signature around a body.
pub fn request<T>(rng: &mut Rng, body: T) -> Request<T> {
    let secret = gen::secret(rng);
    let mut request = Request::new(&secret, body);
    match rng.below(4) {
        0 => request.proof_seed = gen::int(rng),
        1 => request.proof_sign = gen::content(rng, 300),
        _ => (),
    }
    request
}

pub fn response<T>(rng: &mut Rng, body: T) -> Response<T> {
    if rng.bool() {
        let secret = gen::secret(rng);
        let sign = if rng.bool() { gen::content(rng, 300) } else { secret.create_signature(rng.u64().to_be_bytes()) };
        Response::success(ResponseStatus::Success, secret.public_key(), sign, body)
    } else {
        Response::error(*rng.pick(&STATUSES[1..]), gen::string(rng, 80))
    }
}

pub fn lookup_body(rng: &mut Rng) -> LookupResponseBody {
    match rng.below(3) {
        0 => LookupResponseBody::local(client(rng), rng.bool()),
        1 => LookupResponseBody::remote(client(rng), server(rng), rng.bool()),
        _ => LookupResponseBody::hint(many(rng, server)),
    }
}

pub fn announce_body(rng: &mut Rng) -> AnnounceRequestBody {
    if rng.bool() {
        AnnounceRequestBody::client(client(rng), server(rng))
    } else {
        AnnounceRequestBody::server(server(rng))
    }
}

pub fn connect_body(rng: &mut Rng) -> ConnectRequestBody {
    ConnectRequestBody { certificate: client(rng).certificate, client: gen::client_info(rng) }
}

pub fn send_body(rng: &mut Rng) -> SendRequestBody {
    let key = gen::secret(rng).public_key();
    SendRequestBody::new(sender(rng), key, gen::string(rng, 60), gen::raw_message(rng))
}

pub fn opt_int(rng: &mut Rng) -> Option<u64> {
    if rng.bool() { None } else { Some(gen::int(rng)) }
}

pub fn poll_body(rng: &mut Rng) -> PollResponseBody {
    PollResponseBody::new(many(rng, message_info), gen::int(rng))
}

pub fn info(rng: &mut Rng) -> InfoResponse {
    let mut info = InfoResponse::new(&gen::secret(rng));
    match rng.below(4) {
        0 => info.proof_seed = gen::int(rng),
        1 => info.proof_sign = gen::content(rng, 200),
        _ => (),
    }
    info
}

/// Calls `$mac!(name, Type, generator)` for every type with a JSON form and a
/// serde form.
#[macro_export]
macro_rules! wire_types {
    ($mac:ident) => {
        $mac!("ClientInfo", ClientInfo, $crate::gen::client_info);
        $mac!("Client", $crate::wire::ClientRecordAlias, $crate::wire::client);
        $mac!("Server", $crate::wire::ServerRecordAlias, $crate::wire::server);
        $mac!("ConnectionCertificate", ConnectionCertificate, |rng: &mut Rng| $crate::wire::client(rng).certificate);
        $mac!("Message", Message, $crate::gen::raw_message);
        $mac!("Sender", Sender, $crate::wire::sender);
        $mac!("MessageInfo", MessageInfo, $crate::wire::message_info);
        $mac!("ConnectRequestBody", ConnectRequestBody, $crate::wire::connect_body);
        $mac!("ConnectRequest", ConnectRequest, |rng: &mut Rng| { let b = $crate::wire::connect_body(rng); ConnectRequest($crate::wire::request(rng, b)) });
        $mac!("ConnectResponse", ConnectResponse, |rng: &mut Rng| ConnectResponse($crate::wire::response(rng, ConnectResponseBody::new())));
        $mac!("DisconnectRequest", DisconnectRequest, |rng: &mut Rng| DisconnectRequest($crate::wire::request(rng, DisconnectRequestBody::new())));
        $mac!("DisconnectResponse", DisconnectResponse, |rng: &mut Rng| DisconnectResponse($crate::wire::response(rng, DisconnectResponseBody::new())));
        $mac!("AnnounceRequestBody", AnnounceRequestBody, $crate::wire::announce_body);
        $mac!("AnnounceRequest", AnnounceRequest, |rng: &mut Rng| { let b = $crate::wire::announce_body(rng); AnnounceRequest($crate::wire::request(rng, b)) });
        $mac!("AnnounceResponse", AnnounceResponse, |rng: &mut Rng| AnnounceResponse($crate::wire::response(rng, AnnounceResponseBody::new())));
        $mac!("LookupRequestBody", LookupRequestBody, |rng: &mut Rng| LookupRequestBody::new($crate::gen::secret(rng).public_key(), $crate::gen::opt_client_type(rng)));
        $mac!("LookupRequest", LookupRequest, |rng: &mut Rng| { let b = LookupRequestBody::new($crate::gen::secret(rng).public_key(), $crate::gen::opt_client_type(rng)); LookupRequest($crate::wire::request(rng, b)) });
        $mac!("LookupResponseBody", LookupResponseBody, $crate::wire::lookup_body);
        $mac!("LookupResponse", LookupResponse, |rng: &mut Rng| { let b = $crate::wire::lookup_body(rng); LookupResponse($crate::wire::response(rng, b)) });
        $mac!("SendRequestBody", SendRequestBody, $crate::wire::send_body);
        $mac!("SendRequest", SendRequest, |rng: &mut Rng| { let b = $crate::wire::send_body(rng); SendRequest($crate::wire::request(rng, b)) });
        $mac!("SendResponse", SendResponse, |rng: &mut Rng| SendResponse($crate::wire::response(rng, SendResponseBody::new())));
        $mac!("PollRequestBody", PollRequestBody, |rng: &mut Rng| PollRequestBody::new($crate::gen::string(rng, 60), $crate::wire::opt_int(rng)));
        $mac!("PollRequest", PollRequest, |rng: &mut Rng| { let b = PollRequestBody::new($crate::gen::string(rng, 60), $crate::wire::opt_int(rng)); PollRequest($crate::wire::request(rng, b)) });
        $mac!("PollResponseBody", PollResponseBody, $crate::wire::poll_body);
        $mac!("PollResponse", PollResponse, |rng: &mut Rng| { let b = $crate::wire::poll_body(rng); PollResponse($crate::wire::response(rng, b)) });
        $mac!("InfoResponse", InfoResponse, $crate::wire::info);
        $mac!(@noserde "ClientsResponse", ClientsResponse, |rng: &mut Rng| ClientsResponse::new($crate::wire::many(rng, $crate::wire::client)));
        $mac!("ServersResponse", ServersResponse, |rng: &mut Rng| ServersResponse::new($crate::wire::many(rng, $crate::wire::server)));
    };
}

pub type ClientRecordAlias = ClientRecord;
pub type ServerRecordAlias = ServerRecord;

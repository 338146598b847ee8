//! Stand-in for the `easy-upnp` crate: the same public API, acting on a
//! simulated gateway which records every request instead of on a real one.
//! `add_ports` and `delete_ports` are lazy iterators, exactly as in the real
//! crate: nothing reaches the gateway until the iterator is advanced.

use std::collections::{BTreeMap, VecDeque};
use std::sync::Mutex;

use thiserror::Error;

#[allow(missing_docs)]
#[derive(Debug, Error)]
pub enum Error {
    #[error("No matching gateway found")]
    NoMatchingGateway,

    #[error("Could not get interface address: {0}")]
    CannotGetInterfaceAddress(#[source] std::io::Error),

    #[error("Error adding port: {0}")]
    IgdAddPortError(String),

    #[error("Error searching for gateway: {0}")]
    IgdSearchError(String),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Ipv4Cidr(pub [u8; 4], pub u8);

#[allow(clippy::upper_case_acronyms)]
#[derive(Clone, Copy, Debug)]
pub enum PortMappingProtocol {
    TCP,
    UDP,
}

#[derive(Debug)]
pub struct UpnpConfig {
    pub address: Option<Ipv4Cidr>,
    pub port: u16,
    pub protocol: PortMappingProtocol,
    pub duration: u32,
    pub comment: String,
}

pub mod sim {
    use super::*;

    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Event {
        pub add: bool,
        pub port: u16,
        /// 6 for TCP, 17 for UDP
        pub proto: u8,
        pub duration: u32,
        pub any_address: bool,
        pub ok: bool,
    }

    #[derive(Debug, Default)]
    pub struct Gateway {
        /// (port, proto) -> duration
        pub mappings: BTreeMap<(u16, u8), u32>,
        pub log: Vec<Event>,
        /// outcome of the coming requests; empty means "succeed"
        pub script: VecDeque<bool>,
        /// requests for these fail whatever the script says
        pub broken: std::collections::BTreeSet<(u16, u8)>,
    }

    pub static GATEWAY: Mutex<Option<Gateway>> = Mutex::new(None);

    pub fn reset() {
        *GATEWAY.lock().unwrap_or_else(|e| e.into_inner()) = Some(Gateway::default());
    }

    pub fn with<T>(f: impl FnOnce(&mut Gateway) -> T) -> T {
        let mut guard = GATEWAY.lock().unwrap_or_else(|e| e.into_inner());
        f(guard.get_or_insert_with(Gateway::default))
    }
}

fn number(protocol: PortMappingProtocol) -> u8 {
    match protocol {
        PortMappingProtocol::TCP => 6,
        PortMappingProtocol::UDP => 17,
    }
}

fn act(config: &UpnpConfig, add: bool) -> Result<(), Error> {
    sim::with(|gateway| {
        let key = (config.port, number(config.protocol));
        let mut ok = gateway.script.pop_front().unwrap_or(true);

        if gateway.broken.contains(&key) {
            ok = false;
        }

        if ok {
            if add {
                gateway.mappings.insert(key, config.duration);
            } else {
                gateway.mappings.remove(&key);
            }
        }

        gateway.log.push(sim::Event {
            add,
            port: config.port,
            proto: key.1,
            duration: config.duration,
            any_address: config.address.is_none(),
            ok,
        });

        if ok { Ok(()) } else { Err(Error::NoMatchingGateway) }
    })
}

pub fn add_ports(configs: impl IntoIterator<Item = UpnpConfig>) -> impl Iterator<Item = Result<(), Error>> {
    configs.into_iter().map(|config| act(&config, true))
}

pub fn delete_ports(configs: impl IntoIterator<Item = UpnpConfig>) -> impl Iterator<Item = Result<(), Error>> {
    configs.into_iter().map(|config| act(&config, false))
}

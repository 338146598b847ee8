use crate::ctx::Ctx;

mod client;
mod crypto;
mod drivers;
mod e2e;
mod hostile;
mod http;
mod secrets;
mod storage;
mod server;
mod faults;
mod fresh;
mod inbox;
mod network;
mod routing;
mod upnp;
mod values;

pub fn run(ctx: &Ctx) -> bool {
    match ctx.prop.as_str() {
        "C01" => crypto::c01(ctx),
        "C02" => crypto::c02(ctx),
        "C03" => crypto::c03(ctx),
        "C04" => crypto::c04(ctx),
        "C05" => crypto::c05(ctx),
        "C06" => values::c06(ctx),
        "C07" => hostile::c07(ctx),
        "C08" => server::c08(ctx),
        "C09" => server::c09(ctx),
        "C10" => client::c10(ctx),
        "C11" => {
            drivers::c11(ctx);
            server::c11(ctx);
        }
        "C12" => server::c12(ctx),
        "C13" => routing::c13(ctx),
        "C14" => {
            drivers::c14(ctx);
            faults::c14(ctx);
        }
        "C15" => {
            drivers::c15(ctx);
            inbox::c15(ctx);
        }
        "C16" => inbox::c16(ctx),
        "C17" => {
            drivers::c17(ctx);
            inbox::c17(ctx);
            faults::c17(ctx);
        }
        "C18" => inbox::c18(ctx),
        "C19" => network::c19(ctx),
        "C20" => network::c20(ctx),
        "C21" => upnp::c21(ctx),
        "C22" => network::c22(ctx),
        "C23" => secrets::c23(ctx),
        "C24" => fresh::c24(ctx),
        "C25" => e2e::c25(ctx),
        "C26" => http::c26(ctx),
        "C28" => client::c28(ctx),
        "C29" => storage::c29(ctx),
        _ => return false,
    }
    true
}

/// A process started by a check itself: `hv child <what> ...`.
pub fn child() {
    let args: Vec<String> = std::env::args().skip(2).collect();
    match args.first().map(String::as_str) {
        Some("fresh") => fresh::child(&args[1..]),
        Some("store") => faults::child(&args[1..]),
        _ => std::process::exit(3),
    }
}

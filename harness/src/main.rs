//! hv: runtime monitors for hyperborealib. One process runs the workload of
//! one property, watches it, and writes what was observed and violated to a
//! JSON report; /verif/run.py turns that into verdict and evidence.

#![allow(clippy::type_complexity)]

pub mod ctx;
pub mod gen;
pub mod httpd;
pub mod net;
pub mod refimpl;
pub mod props;
pub mod shim;
pub mod wire;

use std::path::PathBuf;
use std::sync::Arc;

use ctx::Ctx;

fn arg(name: &str) -> Option<String> {
    let args: Vec<String> = std::env::args().collect();
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn main() {
    ctx::install_panic_monitor();

    let prop = std::env::args().nth(1).unwrap_or_default();

    shim::enter();

    if prop == "child" {
        props::child();
        std::process::exit(0);
    }

    let seed = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = arg("--tier").as_deref() == Some("thorough");
    let scratch = PathBuf::from(arg("--scratch").unwrap_or_else(|| "/tmp/hv-scratch".into()));
    let only = arg("--only").and_then(|s| {
        let (kind, index) = s.rsplit_once('#')?;
        Some((kind.to_string(), index.parse().ok()?))
    });

    if std::fs::create_dir_all(&scratch).is_err() {
        eprintln!("cannot create {scratch:?}");
        std::process::exit(3);
    }

    let ctx = Arc::new(Ctx::new(&prop, thorough, seed, scratch, only));

    ctx::start_watchdog(ctx.clone(), write_report);

    if !props::run(&ctx) {
        eprintln!("unknown property {prop}");
        std::process::exit(3);
    }

    write_report(&ctx);
    std::process::exit(0);
}

fn write_report(ctx: &Ctx) {
    let report = ctx.report();

    match arg("--out") {
        Some(path) => std::fs::write(path, report.to_string()).expect("report"),
        None => println!("{report:#}"),
    }
}

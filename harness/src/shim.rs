//! Control of the file-system shim (shim/fsshim.c), when it is loaded.

use std::ffi::CString;
use std::path::Path;

fn symbol(name: &str) -> Option<*mut libc::c_void> {
    let name = CString::new(name).ok()?;
    let found = unsafe { libc::dlsym(libc::RTLD_DEFAULT, name.as_ptr()) };
    if found.is_null() { None } else { Some(found) }
}

pub fn loaded() -> bool {
    symbol("hvshim_set").is_some()
}

/// Start this program again under the shim if that was asked for.
pub fn enter() {
    let Ok(path) = std::env::var("HV_SHIM") else { return };
    if path.is_empty() || loaded() || std::env::var("LD_PRELOAD").is_ok() {
        return;
    }
    use std::os::unix::process::CommandExt;
    let err = std::process::Command::new(std::env::current_exe().expect("exe"))
        .args(std::env::args().skip(1))
        .env("LD_PRELOAD", &path)
        .exec();
    eprintln!("cannot start under the shim: {err}");
    std::process::exit(3);
}

pub fn root(path: &Path) {
    use std::os::unix::ffi::OsStrExt;
    if let (Some(f), Ok(path)) = (symbol("hvshim_root"), CString::new(path.as_os_str().as_bytes())) {
        let f: extern "C" fn(*const libc::c_char) = unsafe { std::mem::transmute(f) };
        f(path.as_ptr());
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Plan {
    pub mode: i32,
    pub n: i64,
    pub errno: i32,
    pub arg: i64,
    pub seed: u64,
}

pub const OFF: Plan = Plan { mode: 0, n: 0, errno: 0, arg: 0, seed: 0 };
pub const COUNT: Plan = Plan { mode: 1, n: 0, errno: 0, arg: 0, seed: 0 };

pub fn set(plan: Plan) {
    if let Some(f) = symbol("hvshim_set") {
        let f: extern "C" fn(libc::c_int, libc::c_long, libc::c_int, libc::c_long, libc::c_ulong) = unsafe { std::mem::transmute(f) };
        f(plan.mode, plan.n, plan.errno, plan.arg, plan.seed);
    }
}

/// 0 calls, 1 changing calls, 2 changing calls that succeeded, 3 fired
pub fn get(what: i32) -> i64 {
    match symbol("hvshim_get") {
        Some(f) => {
            let f: extern "C" fn(libc::c_int) -> libc::c_long = unsafe { std::mem::transmute(f) };
            f(what)
        }
        None => 0,
    }
}

pub fn fired_name() -> String {
    match symbol("hvshim_fired_name") {
        Some(f) => {
            let f: extern "C" fn(*mut libc::c_char, usize) = unsafe { std::mem::transmute(f) };
            let mut buffer = [0u8; 64];
            f(buffer.as_mut_ptr() as *mut libc::c_char, buffer.len());
            let end = buffer.iter().position(|b| *b == 0).unwrap_or(0);
            String::from_utf8_lossy(&buffer[..end]).into_owned()
        }
        None => String::new(),
    }
}

/// Sleep now and then around the file-system calls under `dir`.
pub fn delays(dir: &Path, per_mille: i64, up_to_us: i64, seed: u64) {
    let dir = std::fs::canonicalize(dir).unwrap_or(dir.to_path_buf());
    root(&dir);
    set(Plan { mode: 5, n: per_mille, errno: 0, arg: up_to_us, seed });
}

"""Builds of the harness against /repo's working tree."""

import concurrent.futures
import glob
import hashlib
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(ROOT, "target")


def cargo_env():
    env = dict(os.environ)
    for name in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "RUSTUP_TOOLCHAIN"):
        env.pop(name, None)
    env["CARGO_NET_OFFLINE"] = "true"
    home = os.environ.get("HOME", "/root")
    for bin_dir in (os.path.join(home, ".cargo/bin"), "/root/.cargo/bin", "/usr/local/cargo/bin"):
        if os.path.isdir(bin_dir):
            env["PATH"] = bin_dir + ":" + env.get("PATH", "")
    return env


def run(argv, cwd, env=None, quiet=True):
    result = subprocess.run(argv, cwd=cwd, env=env or cargo_env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if result.returncode != 0:
        sys.stderr.write(result.stdout.decode("utf-8", "replace")[-12000:])
        return False
    return True


def sources():
    """A digest of everything that is compiled from source here."""
    digest = hashlib.sha256()
    for top in ("/repo", os.path.join(ROOT, "harness"), os.path.join(ROOT, "miri")):
        for folder, folders, files in os.walk(top):
            folders[:] = sorted(name for name in folders if name != "target" and not name.startswith("."))
            for name in sorted(files):
                if name.endswith((".rs", ".toml", ".lock")):
                    path = os.path.join(folder, name)
                    with open(path, "rb") as file:
                        content = file.read()
                    digest.update(f"{path} {len(content)} ".encode() + content)
    return digest.hexdigest()


def refresh(target_dir):
    """Makes cargo compile anew what was compiled from other sources: it goes by
    the files' times, which a copied tree may not keep in order."""
    stamp = os.path.join(target_dir, "sources")
    now = sources()
    try:
        with open(stamp) as file:
            if file.read() == now:
                return
    except FileNotFoundError:
        pass
    for name in ("hyperborealib", "hv", "hvmiri", "easy-upnp"):
        for path in glob.glob(os.path.join(target_dir, "**", ".fingerprint", name + "-*"), recursive=True):
            shutil.rmtree(path, ignore_errors=True)
    os.makedirs(target_dir, exist_ok=True)
    with open(stamp + f".{os.getpid()}", "w") as file:
        file.write(now)
    os.rename(file.name, stamp)


def build_hv():
    refresh(TARGET)
    if not run(["cargo", "build", "--offline", "--target-dir", TARGET], os.path.join(ROOT, "harness")):
        return None
    return os.path.join(TARGET, "debug", "hv")


def build_c(name):
    source = os.path.join(ROOT, "shim", name + ".c")
    out = os.path.join(TARGET, "lib" + name + ".so")
    os.makedirs(TARGET, exist_ok=True)
    if os.path.exists(out) and os.path.getmtime(out) > os.path.getmtime(source):
        return out
    tmp = out + f".{os.getpid()}"
    if not run(["gcc", "-O2", "-fPIC", "-shared", "-o", tmp, source, "-ldl", "-lpthread"], ROOT):
        return None
    os.rename(tmp, out)
    return out


def build_shim():
    return build_c("fsshim")


def build_frozen():
    return build_c("frozen")


# -------------------------------------------------- sanitizers (nightly)

TRIPLE = "x86_64-unknown-linux-gnu"


def target(kind):
    return os.path.join(ROOT, "target-" + kind)


def build_sanitized(kind, flags, more=()):
    refresh(target(kind))
    env = cargo_env()
    env["RUSTFLAGS"] = flags
    argv = ["cargo", "+nightly", "build", "--offline", "--target", TRIPLE, "--target-dir", target(kind), *more]
    if not run(argv, os.path.join(ROOT, "harness"), env):
        return None
    return os.path.join(target(kind), TRIPLE, "debug", "hv")


def build_asan():
    return build_sanitized("asan", "-Zsanitizer=address -Cunsafe-allow-abi-mismatch=sanitizer")


def build_tsan():
    return build_sanitized("tsan", "-Zsanitizer=thread", ["-Zbuild-std"])


def miri_env(seed=0):
    env = cargo_env()
    env["MIRIFLAGS"] = f"-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-seed={seed}"
    env["RUST_BACKTRACE"] = "0"
    return env


def miri_argv():
    return ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--target-dir", target("miri")]


def build_miri():
    """Compiles the interpreter's standard library and the workload."""
    refresh(target("miri"))
    if not run(miri_argv() + ["--", "none", "0", "0", "/nonexistent"], os.path.join(ROOT, "miri"), miri_env()):
        return None
    return target("miri")


BUILDERS = {"hv": build_hv, "shim": build_shim, "frozen": build_frozen, "asan": build_asan, "tsan": build_tsan, "miri": build_miri}


def build(names):
    with concurrent.futures.ThreadPoolExecutor(3) as pool:
        out = dict(zip(names, pool.map(lambda name: BUILDERS[name](), names)))
    return None if None in out.values() else out


if __name__ == "__main__":
    sys.exit(0 if build(sys.argv[1:] or list(BUILDERS)) else 1)

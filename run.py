#!/usr/bin/env python3
"""Run the monitor of one property: ./run.py <ID> [--tier quick|thorough]
[--seed N] [--replay FILE] [--keep].

Rebuilds the harness (and with it hyperborealib from /repo's working tree),
runs the workload as an unprivileged user inside a scratch folder, and turns
what the monitors observed into a verdict:

  exit 0   held on everything explored (known findings are printed)
  exit 1   VIOLATION property=<id> replay=<path>
  exit 2   no verdict: build error, watchdog, too little observed
"""

import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))

from meta import PROPERTIES  # noqa: E402
import build  # noqa: E402
import known  # noqa: E402

CRASHES = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


def child(argv, scratch, env, timeout, log):
    """Run one monitored process; returns (returncode or None on timeout, stderr tail)."""

    def limits():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
        resource.setrlimit(resource.RLIMIT_NOFILE, (min(hard, 16384), hard))

    with open(log, "wb") as stderr:
        process = subprocess.Popen(
            argv, cwd=scratch, env=env, stdin=subprocess.DEVNULL, stdout=stderr, stderr=stderr,
            user=65534, group=65534, extra_groups=[], start_new_session=True, preexec_fn=limits,
        )
        try:
            code = process.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            code = None
        try:
            os.killpg(process.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        process.wait()
    with open(log, "rb") as f:
        f.seek(0, 2)
        f.seek(max(0, f.tell() - 6000))
        tail = f.read().decode("utf-8", "replace")
    return code, tail


def main():
    args = sys.argv[1:]
    opts = {}
    pos = []
    while args:
        a = args.pop(0)
        if a == "--keep":
            opts["keep"] = True
        elif a.startswith("--"):
            opts[a[2:]] = args.pop(0)
        else:
            pos.append(a)

    tier = opts.get("tier") or os.environ.get("VERIF_TIER") or "quick"
    seed = int(opts.get("seed") or os.environ.get("VERIF_SEED") or "1")
    only = None

    if "replay" in opts:
        with open(opts["replay"]) as f:
            replay = json.load(f)
        pos, tier, seed = [replay["property"]], replay["tier"], replay["seed"]
        if replay["violations"] and opts.get("case") != "all":
            v = replay["violations"][0]
            if v["case"] not in ("panic-monitor", "process"):
                only = f"{v['case']}#{v['index']}"

    prop = pos[0]
    meta = PROPERTIES[prop]
    started = time.time()

    binaries = build.build(meta.get("builds", ["hv"]))
    if binaries is None:
        print(f"{prop}: the harness does not build against /repo", file=sys.stderr)
        return 2

    built = time.time()
    base = "/dev/shm" if meta.get("shm") and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    scratch = tempfile.mkdtemp(prefix=f"hv-{prop}-", dir=base)
    try:
        os.chmod(scratch, 0o755)
        work = os.path.join(scratch, "work")
        os.mkdir(work)
        os.chown(work, 65534, 65534)
        return monitor(prop, meta, tier, seed, only, binaries, scratch, work, started, built)
    finally:
        if not opts.get("keep"):
            shutil.rmtree(scratch, ignore_errors=True)


def monitor(prop, meta, tier, seed, only, binaries, scratch, work, started, built):
    out = os.path.join(work, "report.json")
    env = {
        "PATH": "/usr/bin:/bin", "HOME": work, "TMPDIR": work, "LANG": "C.UTF-8",
        "RUST_BACKTRACE": "0", "HV_SHIM": binaries.get("shim", ""), "HV_FROZEN": binaries.get("frozen", ""),
    }
    deadline = 600 if tier == "quick" else 6 * 3600

    if "special" in meta:
        import special
        env["HV_STARTED"] = str(started)
        report, crash = special.run(meta["special"], prop, tier, seed, binaries, scratch, work, env, deadline)
    else:
        argv = [binaries["hv"], prop, "--tier", tier, "--seed", str(seed), "--scratch", os.path.join(work, "s"), "--out", out]
        if only:
            argv += ["--only", only]
        code, tail = child(argv, work, env, deadline, os.path.join(scratch, "log"))
        crash = None
        report = None
        if code is None:
            print(f"{prop}: watchdog after {deadline} s, no verdict\n{tail}", file=sys.stderr)
            return 2
        if code < 0 and -code in {int(s) for s in CRASHES}:
            crash = f"process ended by {signal.Signals(-code).name}"
        elif code != 0:
            print(f"{prop}: harness ended with {code}, no verdict\n{tail}", file=sys.stderr)
            return 2
        else:
            with open(out) as f:
                report = json.load(f)
        if crash:
            report = {
                "evaluations": 1, "distinct_nontrivial": 0, "observed": {}, "samples": [], "errors": [],
                "violations": [{"case": "process", "index": 0, "what": crash, "detail": tail}], "violation_count": 1,
            }

    if report is None:
        return 2

    violations, found = known.split(prop, report["violations"])
    count = report["violation_count"] if violations else 0

    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": meta["level"],
        "coverage": {
            "evaluations": report["evaluations"],
            "distinct_nontrivial": report["distinct_nontrivial"],
            "rule": meta["rule"],
            "observed": report["observed"],
            "samples": report["samples"],
        },
        "assumptions": meta["assumptions"],
        "wall_s": round(time.time() - started, 3),
        "build_s": round(built - started, 3),
        "violations": count,
        "errors": report["errors"],
    }
    if only is None:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1, ensure_ascii=False)

    for finding in found:
        print(f"KNOWN-FINDING: property={prop} {finding}")

    if violations:
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        path = os.path.join(HERE, "replay", f"{prop}-{tier}-{seed}.json")
        if only is None:
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": tier, "seed": seed, "violations": violations}, f, indent=1, ensure_ascii=False)
        for v in violations[:5]:
            print(f"  {v['case']}#{v['index']}: {v['what']}\n    {json.dumps(v['detail'], ensure_ascii=False)[:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1

    if report["errors"]:
        print(f"{prop}: no verdict", *report["errors"], sep="\n  ", file=sys.stderr)
        return 2

    print(f"{prop}: held on {report['evaluations']} executions ({report['distinct_nontrivial']} distinct), "
          f"{time.time() - started:.1f} s, {json.dumps(report['observed'])}")
    return 0


if __name__ == "__main__":
    sys.exit(main())
